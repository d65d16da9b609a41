"""Fields declared with all kinds of options, next to the plain fields they stand for."""
import __vp__
from django.apps import apps
from django.db import models
from denorm import denormalized, depend_on_related, cached, CountField, CacheKeyField
from denorm.fields import SumField


class Target(models.Model):
    code = models.CharField(max_length=5, unique=True)

    class Meta:
        app_label = 'app'


class Between(models.Model):
    class Meta:
        app_label = 'app'


class Colour(models.CharField):
    """A field with an argument of its own and a length that is not the user's choice."""
    def __init__(self, palette, *args, **kwargs):
        self.palette = palette
        kwargs['max_length'] = 7
        super(Colour, self).__init__(*args, **kwargs)

    def deconstruct(self):
        name, path, args, kwargs = super(Colour, self).deconstruct()
        del kwargs['max_length']
        return name, path, [self.palette] + args, kwargs


class Renamed(models.IntegerField):
    """A field that tells migrations to use another path."""
    def deconstruct(self):
        name, path, args, kwargs = super(Renamed, self).deconstruct()
        return name, 'pkg.fields.Renamed', args, kwargs


def checker(value):
    return None


def compute(self):
    return __vp__.event('compute', 'value', self)


@depend_on_related('app.Target', foreign_key='link')
def depending(self):
    return __vp__.event('compute', 'value', self)


class Store(object):
    def get(self, key, default=None):
        return __vp__.event('cache.get', key)

    def set(self, key, value, timeout=None):
        __vp__.note('cache.set', key, value)


STORE = Store()
OPTIONS = (
    {},
    {'editable': True},
    {'null': True, 'blank': True},
    {'default': __vp__.sym('user.default', 'int'), 'editable': True},
    {'default': 5},
    {'default': None, 'null': True},
    {'db_column': 'other', 'db_index': True},
    {'unique': True, 'help_text': 'some help'},
    {'verbose_name': __vp__.sym('user.verbose', 'str'), 'serialize': False},
    {'choices': [(1, 'one'), (2, 'two')]},
    {'validators': [checker], 'error_messages': {'null': 'never'}},
    {'unique_for_date': 'day', 'db_tablespace': 'space'},
    {'primary_key': True, 'editable': True},
    {'unique_for_month': 'day', 'unique_for_year': 'day', 'auto_created': True, 'editable': 1},
)
KINDS = (
    ('char', models.CharField, (), {'max_length': 12}),
    ('int', models.IntegerField, (), {}),
    ('big', models.BigIntegerField, (), {}),
    ('text', models.TextField, (), {}),
    ('bool', models.BooleanField, (), {}),
    ('nullbool', models.NullBooleanField, (), {}),
    ('decimal', models.DecimalField, (), {'max_digits': 8, 'decimal_places': 2}),
    ('date', models.DateField, (), {}),
    ('now', models.DateTimeField, (), {'auto_now': True}),
    ('positional', models.DecimalField, ('worth', None, 9, 3), {}),
    ('colour', Colour, ('warm',), {}),
    ('renamed', Renamed, (), {}),
)
RELATIONS = (
    ('fk', models.ForeignKey, (Target,), {'on_delete': models.CASCADE}),
    ('fkname', models.ForeignKey, ('app.Target',), {'on_delete': models.SET_NULL, 'null': True, 'related_name': '+'}),
    ('fkopts', models.ForeignKey, (Target,), {'on_delete': models.PROTECT, 'db_index': False, 'db_constraint': False, 'related_query_name': 'q', 'limit_choices_to': {'code': 'x'}}),
    ('fkto', models.ForeignKey, (Target,), {'on_delete': models.CASCADE, 'to_field': 'code', 'db_column': 'tc'}),
    ('fkpos', models.ForeignKey, (Target, models.CASCADE), {'null': True}),
    ('self', models.ForeignKey, ('self',), {'on_delete': models.CASCADE, 'null': True}),
    ('o2o', models.OneToOneField, (Target,), {'on_delete': models.CASCADE}),
    ('m2m', models.ManyToManyField, (Target,), {}),
    ('m2mopts', models.ManyToManyField, ('app.Target',), {'db_table': 'links', 'db_constraint': False, 'blank': True}),
)
ATTRS = ('null', 'blank', 'max_length', '_unique', 'db_index', 'default', 'editable', 'serialize', 'choices', 'help_text', 'db_column', '_verbose_name',
         'primary_key', '_validators', '_error_messages', 'unique_for_date', 'unique_for_month', 'unique_for_year', 'auto_created', '_db_tablespace')
MORE = ((models.DecimalField, ('max_digits', 'decimal_places')), (models.DateField, ('auto_now',)), (Colour, ('palette',)),
        (models.ForeignKey, ('db_constraint', 'to_fields')), (models.ManyToManyField, ('db_table',)))


def model(name, app, field):
    return type(models.Model)(name, (models.Model,), {
        'Meta': type('Meta', (), {'app_label': app}),
        '__module__': 'shapes.decl',
        'link': models.ForeignKey(Target, null=True, related_name='+', on_delete=models.CASCADE),
        'value': field,
    })


def field_of(cls):
    for f in list(cls._meta.fields) + list(cls._meta.many_to_many):
        if f.name == 'value':
            return f


def attrs(f):
    names = ATTRS
    for kind, more in MORE:
        if isinstance(f, kind):
            names = names + more
    return tuple((a, getattr(f, a)) for a in names)


def declared():
    """(label, of the computed field, of the plain one) with deconstruction and attributes of both."""
    out = []
    n = 0
    for label, kind, args, base in KINDS + RELATIONS:
        if label not in __vp__.config('labels', ()):
            continue
        for func in (compute, depending):
            for i, more in enumerate(OPTIONS if (label, func) in (('char', compute), ('int', compute)) else OPTIONS[:2] + ({'skip': ('a', 'b'), 'help_text': 'h'},)):
                n += 1
                kw = dict(base)
                kw.update(more)
                plain = dict((k, v) for k, v in kw.items() if k != 'skip')
                plain['editable'] = False
                a = field_of(model('M%d' % n, 'one', denormalized(kind, *args, **dict(kw))(func)))
                b = field_of(model('M%d' % n, 'two', kind(*args, **plain)))
                out.append(('%s/%s/%d' % (label, func.__name__, i), (a.deconstruct(), attrs(a)), (b.deconstruct(), attrs(b))))
    return tuple(out)


def own():
    """(label, class path, what it deconstructs to, that of a rebuilt one, attributes, attributes of the plain field, of the rebuilt field, manager names)."""
    out = []
    n = 0
    for label in ('count', 'sum', 'key', 'cached'):
        if label not in __vp__.config('labels', ()):
            continue
        for i, more in enumerate(OPTIONS + ({'skip': ('a',)},)):
            if label in ('key', 'cached') and 'skip' in more:
                continue
            n += 1
            if label == 'count':
                f = CountField('kids', **dict(more))
            elif label == 'sum':
                f = SumField('kids', field='n', **dict(more))
            elif label == 'key':
                f = CacheKeyField(**dict(more))
            else:
                f = cached(STORE, **dict(more))(depending)
            f = field_of(model('Own%d' % n, 'one', f))
            kw = dict((k, v) for k, v in more.items() if k != 'skip')
            kw['editable'] = False
            kw['default'] = 0
            plain = (models.PositiveIntegerField if label in ('count', 'sum') else models.BigIntegerField)(**kw)
            plain = field_of(model('Own%d' % n, 'two', plain))
            name, path, args, kwargs = f.deconstruct()
            cls = type(f)
            again = cls(*args, **kwargs)
            g = field_of(model('Own%d' % n, 'three', again))
            out.append(('%s/%d' % (label, i), '%s.%s' % (cls.__module__, cls.__qualname__), (name, path, args, kwargs), g.deconstruct(),
                        attrs(f), attrs(plain), attrs(g), (getattr(f.denorm, 'manager_name', None), getattr(g.denorm, 'manager_name', None))))
    return tuple(out)


apps.models_ready = True
