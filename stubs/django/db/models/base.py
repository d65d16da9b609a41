import copy
import inspect
import __vp__
from django.apps import apps
from django.core.exceptions import FieldError, MultipleObjectsReturned, ObjectDoesNotExist
from django.db import DatabaseError, router, transaction
from django.db.models.deletion import CASCADE
from django.db.models.fields import AutoField
from django.db.models.fields.related import OneToOneField, resolve_relation
from django.db.models.manager import Manager
from django.db.models.options import Options
from django.db.models.signals import class_prepared, post_save, pre_save, pre_delete, post_delete
from django.db.models.utils import make_model_tuple
__vp_open__ = 'django.db.models.base'

DEFERRED = object()


class ModelBase(type):
    __vp_open__ = 'django.db.models.base'

    def __new__(cls, name, bases, attrs):
        parents = [b for b in bases if isinstance(b, ModelBase)]
        if not parents:
            return type.__new__(cls, name, bases, attrs)
        attrs = dict(attrs)
        module = attrs.pop('__module__', 'shape')
        attr_meta = attrs.pop('Meta', None)
        new_attrs = {'__module__': module}
        for k in list(attrs):
            if k == '__qualname__' or k == '__classcell__' or k == '__doc__':
                new_attrs[k] = attrs.pop(k)
        new_class = type.__new__(cls, name, bases, new_attrs)
        abstract = getattr(attr_meta, 'abstract', False)
        if not attr_meta:
            meta = getattr(new_class, 'Meta', None)
        else:
            meta = attr_meta
        base_meta = getattr(new_class, '_meta', None)
        app_label = module.split('.')[0]
        new_class.add_to_class('_meta', Options(meta, app_label))
        if not abstract:
            new_class.add_to_class('DoesNotExist', type('DoesNotExist', tuple(
                x.DoesNotExist for x in parents if hasattr(x, '_meta') and not x._meta.abstract) or (ObjectDoesNotExist,),
                {'__module__': module}))
            new_class.add_to_class('MultipleObjectsReturned', type('MultipleObjectsReturned', tuple(
                x.MultipleObjectsReturned for x in parents if hasattr(x, '_meta') and not x._meta.abstract) or (MultipleObjectsReturned,),
                {'__module__': module}))
        is_proxy = new_class._meta.proxy
        for obj_name, obj in attrs.items():
            new_class.add_to_class(obj_name, obj)
        new_fields = new_class._meta.local_fields + new_class._meta.local_many_to_many + new_class._meta.private_fields
        field_names = [f.name for f in new_fields]
        if is_proxy:
            base = None
            for parent in [kls for kls in parents if hasattr(kls, '_meta')]:
                if parent._meta.abstract:
                    if parent._meta.fields:
                        raise TypeError("Abstract base class containing model fields not permitted for proxy model '%s'." % name)
                    else:
                        continue
                if base is None:
                    base = parent
            new_class._meta.setup_proxy(base)
            new_class._meta.concrete_model = base._meta.concrete_model
        else:
            new_class._meta.concrete_model = new_class
        parent_links = {}
        for base in reversed([new_class] + parents):
            if not hasattr(base, '_meta'):
                continue
            if base != new_class and not base._meta.abstract:
                continue
            for field in base._meta.local_fields:
                if isinstance(field, OneToOneField):
                    related = resolve_relation(new_class, field.remote_field.model)
                    parent_links[make_model_tuple(related)] = field
        inherited_attributes = []
        for base in new_class.mro():
            if base not in parents or not hasattr(base, '_meta'):
                inherited_attributes.extend(list(base.__dict__))
                continue
            parent_fields = base._meta.local_fields + base._meta.local_many_to_many
            if not base._meta.abstract:
                for field in parent_fields:
                    if field.name in field_names:
                        raise FieldError('Local field %r in class %r clashes with field of the same name from base class %r.' % (
                            field.name, name, base.__name__))
                    else:
                        inherited_attributes.append(field.name)
                base = base._meta.concrete_model
                base_key = make_model_tuple(base)
                if base_key in parent_links:
                    field = parent_links[base_key]
                elif not is_proxy:
                    attr_name = '%s_ptr' % base._meta.model_name
                    field = OneToOneField(base, on_delete=CASCADE, name=attr_name, auto_created=True, parent_link=True)
                    if not hasattr(new_class, attr_name):
                        new_class.add_to_class(attr_name, field)
                else:
                    field = None
                new_class._meta.parents[base] = field
            else:
                base_parents = base._meta.parents.copy()
                for field in parent_fields:
                    if (field.name not in field_names and field.name not in new_class.__dict__ and
                            field.name not in inherited_attributes):
                        new_field = copy.deepcopy(field)
                        new_class.add_to_class(field.name, new_field)
                        if field.one_to_one:
                            for parent, parent_link in list(base_parents.items()):
                                if field == parent_link:
                                    base_parents[parent] = new_field
                new_class._meta.parents.update(base_parents)
            for field in base._meta.private_fields:
                if field.name in field_names:
                    if not base._meta.abstract:
                        raise FieldError('clash')
                else:
                    new_class.add_to_class(field.name, copy.deepcopy(field))
        if abstract:
            attr_meta.abstract = False
            new_class.Meta = attr_meta
            return new_class
        new_class._prepare()
        new_class._meta.apps.register_model(new_class._meta.app_label, new_class)
        return new_class

    def __init__(cls, name, bases, attrs):
        pass

    def add_to_class(cls, name, value):
        if not inspect.isclass(value) and hasattr(value, 'contribute_to_class'):
            value.contribute_to_class(cls, name)
        else:
            setattr(cls, name, value)

    def _prepare(cls):
        opts = cls._meta
        opts._prepare(cls)
        if not opts.managers:
            manager = Manager()
            manager.auto_created = True
            cls.add_to_class('objects', manager)
        class_prepared.send(sender=cls)

    @property
    def _base_manager(cls):
        return cls._meta.base_manager

    @property
    def _default_manager(cls):
        return cls._meta.default_manager


class ModelState(object):
    db = None
    adding = True
    vp_rows = ()

    def __init__(self, db=None):
        self.fields_cache = {}
        self.db = db


class Model(metaclass=ModelBase):
    __vp_open__ = 'django.db.models.base'

    def __init__(self, *args, **kwargs):
        opts = self._meta
        self._state = ModelState()
        fields = list(opts.fields)
        i = 0
        for val in args:
            setattr(self, fields[i].attname, val)
            i += 1
        for field in fields[i:]:
            is_related_object = False
            if field.attname not in kwargs and field.column is None:
                continue
            if kwargs and field.remote_field and field.name in kwargs and field.name != field.attname:
                rel_obj = kwargs.pop(field.name)
                is_related_object = True
            elif field.attname in kwargs:
                val = kwargs.pop(field.attname)
            else:
                val = field.get_default()
            if is_related_object:
                setattr(self, field.name, rel_obj)
            else:
                setattr(self, field.attname, val)
        for prop in list(kwargs):
            if isinstance(getattr(type(self), prop, None), property) or self.vp_has_field(prop) or prop == 'pk':
                setattr(self, prop, kwargs.pop(prop))
        if kwargs:
            raise TypeError("'%s' is an invalid keyword argument for this function" % list(kwargs)[0])

    @classmethod
    def vp_has_field(cls, name):
        for f in cls._meta.private_fields:
            if f.name == name:
                return True
        return False

    @classmethod
    def vp_from_row(cls, e, db):
        self = __vp__.new(cls)
        self._state = ModelState(db)
        self._state.adding = False
        for f in cls._meta.concrete_fields:
            setattr(self, f.attname, cls.vp_value(e, f.attname))
        for parent, link in cls._meta.parents.items():
            # both are the key of the parent row
            if link:
                setattr(self, parent._meta.pk.attname, getattr(self, link.attname))
        return self

    @classmethod
    def vp_value(cls, e, name):
        pk = cls._meta.pk
        if name == 'pk' or name == pk.attname or name == pk.name:
            return __vp__.term('key', e, pk.attname)
        for f in cls._meta.concrete_fields:
            if name == f.name or name == f.attname:
                v = __vp__.row_value(e, f.attname)
                if not f.null:
                    __vp__.nonnull(v)
                return v
        return __vp__.row_value(e, name)

    @classmethod
    def from_db(cls, db, field_names, values):
        __vp__.unsupported('Model.from_db')

    def __repr__(self):
        return '<%s: %s>' % (self.__class__.__name__, self)

    def __str__(self):
        return '%s object (%s)' % (self.__class__.__name__, self.pk)

    def __eq__(self, other):
        if not isinstance(other, Model):
            return False
        if self._meta.concrete_model != other._meta.concrete_model:
            return False
        my_pk = self.pk
        if my_pk is None:
            return self is other
        return my_pk == other.pk

    def __hash__(self):
        return hash(self.pk)

    def _get_pk_val(self, meta=None):
        meta = meta or self._meta
        return getattr(self, meta.pk.attname)

    def _set_pk_val(self, value):
        return setattr(self, self._meta.pk.attname, value)

    pk = property(_get_pk_val, _set_pk_val)

    def get_deferred_fields(self):
        return set()

    def refresh_from_db(self, using=None, fields=None):
        __vp__.note('db', 'refresh', self._meta.label)
        for f in self._meta.concrete_fields:
            if f.primary_key:
                continue
            if fields is None or f.name in fields or f.attname in fields:
                setattr(self, f.attname, __vp__.fresh('refreshed.%s' % f.attname))

    def serializable_value(self, field_name):
        return getattr(self, self._meta.get_field(field_name).attname)

    def save(self, force_insert=False, force_update=False, using=None, update_fields=None):
        using = using or router.db_for_write(self.__class__, instance=self)
        if force_insert and (force_update or update_fields):
            raise ValueError("Cannot force both insert and updating in model saving.")
        if update_fields is not None:
            if len(update_fields) == 0:
                return
        __vp__.note('save', self, using, update_fields)
        self.save_base(using=using, force_insert=force_insert, force_update=force_update, update_fields=update_fields)

    def save_base(self, raw=False, force_insert=False, force_update=False, using=None, update_fields=None):
        using = using or router.db_for_write(self.__class__, instance=self)
        cls = origin = self.__class__
        if cls._meta.proxy:
            cls = cls._meta.concrete_model
        meta = cls._meta
        if not meta.auto_created:
            pre_save.send(sender=origin, instance=self, raw=raw, using=using, update_fields=update_fields)
        with transaction.atomic(using=using, savepoint=False):
            if not raw:
                self._save_parents(cls, using, update_fields)
            updated = self._save_table(raw, cls, force_insert, force_update, using, update_fields)
        self._state.db = using
        self._state.adding = False
        if not meta.auto_created:
            post_save.send(sender=origin, instance=self, created=(not updated), update_fields=update_fields, raw=raw, using=using)

    def _save_parents(self, cls, using, update_fields):
        meta = cls._meta
        for parent, field in meta.parents.items():
            if field and getattr(self, parent._meta.pk.attname) is None and getattr(self, field.attname) is not None:
                setattr(self, parent._meta.pk.attname, getattr(self, field.attname))
            self._save_parents(cls=parent, using=using, update_fields=update_fields)
            self._save_table(cls=parent, using=using, update_fields=update_fields)
            if field:
                setattr(self, field.attname, self._get_pk_val(parent._meta))

    def _save_table(self, raw=False, cls=None, force_insert=False, force_update=False, using=None, update_fields=None):
        meta = cls._meta
        non_pks = [f for f in meta.local_concrete_fields if not f.primary_key]
        if update_fields:
            non_pks = [f for f in non_pks if f.name in update_fields or f.attname in update_fields]
        pk_val = self._get_pk_val(meta)
        if pk_val is None:
            pk_val = meta.pk.get_pk_value_on_save(self)
            setattr(self, meta.pk.attname, pk_val)
        pk_set = pk_val is not None
        if not pk_set and (force_update or update_fields):
            raise ValueError("Cannot force an update in save() with no primary key.")
        updated = False
        if pk_set and not force_insert:
            base_qs = cls._base_manager.using(using)
            values = [(f, None, (getattr(self, f.attname) if raw else f.pre_save(self, False))) for f in non_pks]
            forced_update = update_fields or force_update
            updated = self._do_update(base_qs, using, pk_val, values, update_fields, forced_update)
            if force_update and not updated:
                raise DatabaseError("Forced update did not affect any rows.")
            if update_fields and not updated:
                raise DatabaseError("Save with update_fields did not affect any rows.")
        if not updated:
            fields = meta.local_concrete_fields
            if not pk_set:
                fields = [f for f in fields if f is not meta.auto_field]
            update_pk = meta.auto_field and not pk_set
            result = self._do_insert(cls._base_manager, using, fields, update_pk, raw)
            if update_pk:
                setattr(self, meta.pk.attname, result)
        if meta.label not in self._state.vp_rows:
            self._state.vp_rows = self._state.vp_rows + (meta.label,)
        return updated

    def _do_update(self, base_qs, using, pk_val, values, update_fields, forced_update):
        filtered = base_qs.filter(pk=pk_val)
        if not values:
            if self.vp_known(base_qs.model):
                return True
            return update_fields is not None or filtered.exists()
        n = filtered._update(values)
        if self.vp_known(base_qs.model):
            return True
        return n > 0

    def vp_known(self, model):
        """This instance saw or made its row in the table before."""
        return model._meta.label in self._state.vp_rows

    def _do_insert(self, manager, using, fields, update_pk, raw):
        return manager._insert([self], fields=fields, return_id=update_pk, using=using, raw=raw)

    def delete(self, using=None, keep_parents=False):
        using = using or router.db_for_write(self.__class__, instance=self)
        __vp__.note('db', 'instance_delete', self._meta.label, using, (), self.pk)
        return (__vp__.fresh('deleted', 'int'), {})

    def full_clean(self, *a, **k):
        return None

    def clean(self):
        return None


class AnyInstance(object):
    """An instance of a model the analysed code knows nothing about; its class may define __bool__ or __len__."""
    __vp_open__ = 'django.db.models.base'

    def __init__(self, label, pk):
        self.vp_label = label
        self.pk = pk
        self._state = ModelState('default')

    @property
    def _meta(self):
        __vp__.unsupported('_meta of an unknown instance')

    def __bool__(self):
        return __vp__.atom('user.__bool__', self.vp_label)

    def save(self, *args, **kwargs):
        __vp__.interrupt('save')
        __vp__.user_fault('save', self.vp_label)
        __vp__.note('save', self.vp_label, args, kwargs)

    def save_base(self, *args, **kwargs):
        __vp__.note('save_base', self.vp_label, args, kwargs)

    def delete(self, *args, **kwargs):
        __vp__.note('db', 'instance_delete', self.vp_label, 'default', (), self.pk)

    def refresh_from_db(self, *args, **kwargs):
        __vp__.note('db', 'refresh', self.vp_label)
