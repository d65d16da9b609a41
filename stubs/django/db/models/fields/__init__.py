import copy
import __vp__
from django.core.exceptions import FieldDoesNotExist
from django.db.models.query_utils import DeferredAttribute
__vp_open__ = 'django.db.models.fields'


class NOT_PROVIDED:
    pass


BLANK_CHOICE_DASH = [("", "---------")]
LITERAL_APPS = ('denorm', 'contenttypes', 'auth', 'sites')


class Field(object):
    __vp_open__ = 'django.db.models.fields'
    __vp_absent__ = ('rel', 'related', 'denorm', 'south_field_triple', 'm2m_db_table', 'm2m_column_name')
    empty_strings_allowed = True
    creation_counter = 0
    auto_creation_counter = -1
    default_validators = []
    many_to_many = None
    many_to_one = None
    one_to_many = None
    one_to_one = None
    related_model = None
    hidden = False
    empty_values = [None, '', [], (), {}]
    vp_type = 'unknown'

    def __init__(self, verbose_name=None, name=None, primary_key=False,
                 max_length=None, unique=False, blank=False, null=False,
                 db_index=False, rel=None, default=NOT_PROVIDED, editable=True,
                 serialize=True, unique_for_date=None, unique_for_month=None,
                 unique_for_year=None, choices=None, help_text='', db_column=None,
                 db_tablespace=None, auto_created=False, validators=(),
                 error_messages=None):
        self.name = name
        self.verbose_name = verbose_name
        self._verbose_name = verbose_name
        self.primary_key = primary_key
        self.max_length, self._unique = max_length, unique
        self.blank, self.null = blank, null
        self.remote_field = rel
        self.is_relation = self.remote_field is not None
        self.default = default
        self.editable = editable
        self.serialize = serialize
        self.unique_for_date = unique_for_date
        self.unique_for_month = unique_for_month
        self.unique_for_year = unique_for_year
        self.choices = choices or []
        self.help_text = help_text
        self.db_index = db_index
        self.db_column = db_column
        self._db_tablespace = db_tablespace
        self.auto_created = auto_created
        if auto_created:
            self.creation_counter = Field.auto_creation_counter
            Field.auto_creation_counter -= 1
        else:
            self.creation_counter = Field.creation_counter
            Field.creation_counter += 1
        self._validators = list(validators)
        self._error_messages = error_messages

    @property
    def unique(self):
        return self._unique or self.primary_key

    @property
    def db_tablespace(self):
        return self._db_tablespace or ''

    def __str__(self):
        if not hasattr(self, 'model'):
            return object.__str__(self)
        return '%s.%s' % (self.model._meta.label, self.name)

    def __repr__(self):
        path = '%s.%s' % (self.__class__.__module__, self.__class__.__qualname__)
        name = getattr(self, 'name', None)
        if name is not None:
            return '<%s: %s>' % (path, name)
        return '<%s>' % path

    def __eq__(self, other):
        if isinstance(other, Field):
            return self.creation_counter == other.creation_counter
        return NotImplemented

    def __lt__(self, other):
        if isinstance(other, Field):
            return self.creation_counter < other.creation_counter
        return NotImplemented

    def __hash__(self):
        return hash(self.creation_counter)

    def __deepcopy__(self, memodict):
        obj = copy.copy(self)
        if self.remote_field:
            obj.remote_field = copy.copy(self.remote_field)
            if hasattr(self.remote_field, 'field') and self.remote_field.field is self:
                obj.remote_field.field = obj
        memodict[id(self)] = obj
        return obj

    def clone(self):
        name, path, args, kwargs = self.deconstruct()
        return self.__class__(*args, **kwargs)

    def deconstruct(self):
        keywords = {}
        possibles = {
            "verbose_name": None,
            "primary_key": False,
            "max_length": None,
            "unique": False,
            "blank": False,
            "null": False,
            "db_index": False,
            "default": NOT_PROVIDED,
            "editable": True,
            "serialize": True,
            "unique_for_date": None,
            "unique_for_month": None,
            "unique_for_year": None,
            "choices": [],
            "help_text": '',
            "db_column": None,
            "db_tablespace": None,
            "auto_created": False,
            "validators": [],
            "error_messages": None,
        }
        attr_overrides = {
            "unique": "_unique",
            "error_messages": "_error_messages",
            "validators": "_validators",
            "verbose_name": "_verbose_name",
            "db_tablespace": "_db_tablespace",
        }
        for name, default in possibles.items():
            value = getattr(self, attr_overrides.get(name, name))
            if name == "choices":
                value = list(value)
            if name == 'choices' or name == 'validators':
                if value != default:
                    keywords[name] = value
            else:
                if value is not default:
                    keywords[name] = value
        path = "%s.%s" % (self.__class__.__module__, self.__class__.__qualname__)
        if path.startswith("django.db.models.fields.related"):
            path = path.replace("django.db.models.fields.related", "django.db.models")
        if path.startswith("django.db.models.fields"):
            path = path.replace("django.db.models.fields", "django.db.models")
        return (self.name, path, [], keywords)

    def set_attributes_from_name(self, name):
        self.name = self.name or name
        self.attname, self.column = self.get_attname_column()
        self.concrete = self.column is not None
        if self.verbose_name is None and self.name:
            self.verbose_name = self.name.replace('_', ' ')

    def contribute_to_class(self, cls, name, private_only=False):
        self.model = cls
        self.set_attributes_from_name(name)
        if private_only:
            cls._meta.add_field(self, private=True)
        else:
            cls._meta.add_field(self)
        if self.column:
            if not getattr(cls, self.attname, None):
                setattr(cls, self.attname, DeferredAttribute(self.attname, cls))

    def get_attname(self):
        return self.name

    def vp_column(self, attname):
        if self.db_column:
            return self.db_column
        if self.model._meta.app_label in LITERAL_APPS:
            return attname
        return __vp__.term('col', '%s.%s' % (self.model._meta.label, attname))

    def get_attname_column(self):
        attname = self.get_attname()
        return attname, self.vp_column(attname)

    def get_cache_name(self):
        return self.name

    def get_internal_type(self):
        for c in self.__class__.__mro__:
            if c.__module__ == 'django.db.models.fields':
                return c.__name__
        return self.__class__.__name__

    def db_type(self, connection):
        return connection.vp_db_type(self.get_internal_type())

    def rel_db_type(self, connection):
        return self.db_type(connection)

    def db_parameters(self, connection):
        return {'type': self.db_type(connection), 'check': None}

    def db_check(self, connection):
        return None

    def cast_db_type(self, connection):
        return self.db_type(connection)

    def has_default(self):
        return self.default is not NOT_PROVIDED

    def get_default(self):
        if self.has_default():
            if callable(self.default):
                return self.default()
            return self.default
        if not self.empty_strings_allowed or self.null:
            return None
        return ''

    def pre_save(self, model_instance, add):
        return getattr(model_instance, self.attname)

    def get_pk_value_on_save(self, instance):
        if self.default and self.default is not NOT_PROVIDED:
            return self.get_default()
        return None

    def get_prep_value(self, value):
        return value

    def get_db_prep_value(self, value, connection, prepared=False):
        return value

    def get_db_prep_save(self, value, connection):
        return value

    def to_python(self, value):
        return value

    def value_from_object(self, obj):
        return getattr(obj, self.attname)

    def value_to_string(self, obj):
        return str(self.value_from_object(obj))

    def save_form_data(self, instance, data):
        setattr(instance, self.name, data)

    def formfield(self, *a, **k):
        return __vp__.fresh('formfield')

    def check(self, **kwargs):
        return []

    def clean(self, value, model_instance):
        return value

    def select_format(self, compiler, sql, params):
        return sql, params


class AutoField(Field):
    empty_strings_allowed = False

    def __init__(self, *args, **kwargs):
        kwargs['blank'] = True
        super().__init__(*args, **kwargs)

    def deconstruct(self):
        name, path, args, kwargs = super().deconstruct()
        del kwargs['blank']
        kwargs['primary_key'] = True
        return name, path, args, kwargs

    def contribute_to_class(self, cls, name, **kwargs):
        assert not cls._meta.auto_field, "A model can't have more than one AutoField."
        super().contribute_to_class(cls, name, **kwargs)
        cls._meta.auto_field = self


class BigAutoField(AutoField):
    pass


class BooleanField(Field):
    empty_strings_allowed = False

    def __init__(self, *args, **kwargs):
        kwargs['blank'] = True
        super().__init__(*args, **kwargs)

    def deconstruct(self):
        name, path, args, kwargs = super().deconstruct()
        del kwargs['blank']
        return name, path, args, kwargs


class NullBooleanField(Field):
    empty_strings_allowed = False

    def __init__(self, *args, **kwargs):
        kwargs['null'] = True
        kwargs['blank'] = True
        super().__init__(*args, **kwargs)

    def deconstruct(self):
        name, path, args, kwargs = super().deconstruct()
        del kwargs['null']
        del kwargs['blank']
        return name, path, args, kwargs


class CharField(Field):
    pass


class SlugField(CharField):
    def __init__(self, *args, max_length=50, db_index=True, allow_unicode=False, **kwargs):
        super().__init__(*args, max_length=max_length, db_index=db_index, **kwargs)


class EmailField(CharField):
    pass


class URLField(CharField):
    pass


class TextField(Field):
    pass


class BinaryField(Field):
    pass


class FilePathField(Field):
    pass


class FileField(Field):
    pass


class ImageField(FileField):
    pass


class IntegerField(Field):
    empty_strings_allowed = False


class BigIntegerField(IntegerField):
    pass


class SmallIntegerField(IntegerField):
    pass


class PositiveIntegerRelDbTypeMixin(object):
    def rel_db_type(self, connection):
        return IntegerField().db_type(connection=connection)


class PositiveIntegerField(PositiveIntegerRelDbTypeMixin, IntegerField):
    pass


class PositiveSmallIntegerField(PositiveIntegerRelDbTypeMixin, IntegerField):
    pass


class FloatField(Field):
    empty_strings_allowed = False


class DecimalField(Field):
    empty_strings_allowed = False

    def __init__(self, verbose_name=None, name=None, max_digits=None, decimal_places=None, **kwargs):
        self.max_digits, self.decimal_places = max_digits, decimal_places
        super().__init__(verbose_name, name, **kwargs)

    def deconstruct(self):
        name, path, args, kwargs = super().deconstruct()
        if self.max_digits is not None:
            kwargs['max_digits'] = self.max_digits
        if self.decimal_places is not None:
            kwargs['decimal_places'] = self.decimal_places
        return name, path, args, kwargs


class DateField(Field):
    empty_strings_allowed = False

    def __init__(self, verbose_name=None, name=None, auto_now=False, auto_now_add=False, **kwargs):
        self.auto_now, self.auto_now_add = auto_now, auto_now_add
        if auto_now or auto_now_add:
            kwargs['editable'] = False
            kwargs['blank'] = True
        super().__init__(verbose_name, name, **kwargs)

    def deconstruct(self):
        name, path, args, kwargs = super().deconstruct()
        if self.auto_now:
            kwargs['auto_now'] = True
        if self.auto_now_add:
            kwargs['auto_now_add'] = True
        if self.auto_now or self.auto_now_add:
            del kwargs['editable']
            del kwargs['blank']
        return name, path, args, kwargs


class DateTimeField(DateField):
    pass


class TimeField(DateField):
    pass


class DurationField(Field):
    empty_strings_allowed = False


class GenericIPAddressField(Field):
    empty_strings_allowed = False


class UUIDField(Field):
    empty_strings_allowed = False
