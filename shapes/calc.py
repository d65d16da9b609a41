"""Computed fields of all kinds, and saving their instances."""
import __vp__
from django.apps import apps
from django.db import models
from denorm import denormalized, depend_on_related
from shapes import drive


class Maker(models.Model):
    code = models.CharField(max_length=5, unique=True)

    class Meta:
        app_label = 'calc'


class Famous(Maker):
    class Meta:
        app_label = 'calc'
        proxy = True


class Other(models.Model):
    class Meta:
        app_label = 'calc'


def plain(name):
    def value(self):
        return __vp__.event('computed', name, self)
    value.__name__ = name
    return value


class Wide(models.Model):
    maker = models.ForeignKey(Maker, on_delete=models.CASCADE, null=True)
    text = denormalized(models.TextField)(plain('text'))
    word = denormalized(models.CharField, max_length=20, default='x', null=True)(plain('word'))
    number = denormalized(models.IntegerField, db_column='anzahl', default=0)(plain('number'))
    big = denormalized(models.BigIntegerField, unique=True, null=True)(plain('big'))
    share = denormalized(models.DecimalField, max_digits=5, decimal_places=2)(plain('share'))
    ratio = denormalized(models.FloatField, db_index=True)(plain('ratio'))
    flag = denormalized(models.BooleanField, default=False)(plain('flag'))
    day = denormalized(models.DateField, null=True)(plain('day'))
    moment = denormalized(models.DateTimeField, auto_now=True)(plain('moment'))
    slug = denormalized(models.SlugField, skip=('text',))(depend_on_related(Maker)(plain('slug')))

    class Meta:
        app_label = 'calc'


class WideProxy(Wide):
    class Meta:
        app_label = 'calc'
        proxy = True


class WideChild(Wide):
    extra = denormalized(models.TextField)(plain('extra'))

    class Meta:
        app_label = 'calc'


WIDE = ('text', 'word', 'number', 'big', 'share', 'ratio', 'flag', 'day', 'moment', 'slug')


def pointing(name):
    """A function for a relation, returning what the analysis is about."""
    def value(self):
        what = __vp__.config('returns')
        if what == 'instance':
            r = Maker.vp_from_row(__vp__.fresh('made'), 'default')
        elif what == 'proxy':
            r = Famous.vp_from_row(__vp__.fresh('made'), 'default')
        elif what == 'none':
            r = None
        else:
            r = __vp__.fresh('rawkey', what)
        made = isinstance(r, Maker)
        __vp__.note('computed', name, self, r, r.id if made else r, r.code if made else r)
        return r
    value.__name__ = name
    return value


class Pointer(models.Model):
    best = denormalized(models.ForeignKey, Maker, on_delete=models.CASCADE, null=True, related_name='+')(pointing('best'))

    class Meta:
        app_label = 'calc'


class Sure(models.Model):
    best = denormalized(models.ForeignKey, 'calc.Maker', on_delete=models.CASCADE, related_name='sure_set', db_column='chef')(pointing('best'))

    class Meta:
        app_label = 'calc'


class Single(models.Model):
    best = denormalized(models.OneToOneField, Maker, on_delete=models.CASCADE, null=True)(pointing('best'))

    class Meta:
        app_label = 'calc'


class Coded(models.Model):
    """A key that is not the primary key."""
    best = denormalized(models.ForeignKey, Maker, to_field='code', on_delete=models.CASCADE, null=True, related_name='coded')(pointing('best'))

    class Meta:
        app_label = 'calc'


class Linked(models.Model):
    loose = models.ManyToManyField(Other, related_name='loose_of')
    links = denormalized(models.ManyToManyField, Maker)(plain('links'))

    class Meta:
        app_label = 'calc'


class LinkedProxy(Linked):
    class Meta:
        app_label = 'calc'
        proxy = True


class LinkedChild(Linked):
    more = denormalized(models.ManyToManyField, Other)(plain('more'))

    class Meta:
        app_label = 'calc'


class Linker(models.Model):
    links = denormalized(models.ManyToManyField, Maker, related_name='abstract_%(class)s')(plain('links'))

    class Meta:
        app_label = 'calc'
        abstract = True


class LinkedFirst(Linker):
    class Meta:
        app_label = 'calc'


class LinkedNamed(Linker):
    name = models.CharField(max_length=10, primary_key=True)

    class Meta:
        app_label = 'calc'


def save(model, how, kw, names):
    o = drive.instance(model, how)
    for n in names:
        o.__dict__[n] = __vp__.sym('held.' + n)
    __vp__.note('begin', o)
    o.save(**kw)
    return tuple([o.__dict__.get(n) for n in names])


def point(model, how, kw, held):
    """Save an instance of a model with a computed foreign key."""
    o = drive.instance(model, how)
    if held == 'object':
        o.best = Maker.vp_from_row(__vp__.sym('heldrow'), 'default')
    elif held == 'none':
        o.best = None
    __vp__.note('begin', o)
    o.save(**kw)
    f = model._meta.get_field('best')
    seen = f.get_cached_value(o) if f.is_cached(o) else 'nothing'
    return (o.__dict__.get('best_id'), seen, getattr(seen, f.target_field.attname) if isinstance(seen, Maker) else None)


def link(model, how, kw):
    o = drive.instance(model, how)
    __vp__.note('begin', o)
    o.save(**kw)
    return o.pk


apps.models_ready = True
