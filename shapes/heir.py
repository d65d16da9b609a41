"""Declarations inherited from abstract models, or written out in every model."""
import __vp__
from django.apps import apps
from django.db import models
from denorm import denormalized, depend_on_related, cached, CacheKeyField, CountField
from denorm.fields import SumField

FLAT = __vp__.config('flat', False)
LAYOUT = __vp__.config('layout', ('Alpha', 'Beta'))
FORM = __vp__.config('form', 'plain')
LATE = __vp__.config('late', False)
ONLY = __vp__.config('only', None)

Model = type(models.Model)
MADE = {}


class Store(object):
    def get(self, key):
        return __vp__.event('store.get', key)

    def set(self, key, value, timeout=None):
        __vp__.event('store.set', key, value)


store = Store()


def compute(name, *dependencies, **skip):
    def func(self):
        return __vp__.event('computed', name, self)
    func.__name__ = name
    for d in dependencies:
        func = depend_on_related(*d, **skip)(func)
    return func


def meta(**kw):
    kw['app_label'] = 'app'
    return type('Meta', (object,), kw)


def make(name, fields, *bases, **options):
    attrs = dict(fields)
    attrs['Meta'] = meta(**options)
    attrs['__module__'] = __name__
    MADE[name] = Model(name, bases or (models.Model,), attrs)
    return MADE[name]


def others():
    make('Owner', {'title': models.CharField(max_length=10, null=True), 'rank': models.IntegerField(null=True)})
    make('Tag', {'word': models.CharField(max_length=10, null=True)})


def parts():
    fields = {'amount': models.IntegerField(null=True)}
    for n in LAYOUT:
        fields['of_' + n.lower()] = models.ForeignKey(n, null=True, on_delete=models.CASCADE, related_name='parts')
    make('Part', fields)


def owner():
    return 'Owner' if LATE else MADE['Owner']


def key():
    k = CacheKeyField()
    k.depend_on_related(owner(), foreign_key='owner')
    k.depend_on_related('Part', skip=('amount',))
    k.depend_on_related('self', foreign_key='above')
    k.depend_on_related('Tag', type='forward_m2m', foreign_key='tags')
    return k


def base():
    fields = [
        ('name', lambda: models.CharField(max_length=10, null=True)),
        ('owner', lambda: models.ForeignKey('Owner', null=True, on_delete=models.CASCADE)),
        ('above', lambda: models.ForeignKey('self', null=True, on_delete=models.CASCADE)),
        ('tags', lambda: models.ManyToManyField('Tag', related_name='tagged_%(class)s')),
        ('own', lambda: denormalized(models.TextField)(compute('own'))),
        ('shy', lambda: denormalized(models.TextField, skip=('name',))(compute('shy'))),
        ('val', lambda: denormalized(models.CharField, max_length=10)(compute('val', (owner(), 'owner')))),
        ('back', lambda: denormalized(models.IntegerField)(compute('back', ('Part',)))),
        ('heir', lambda: denormalized(models.IntegerField)(compute('heir', ('self',)))),
        ('kids', lambda: denormalized(models.IntegerField)(compute('kids', ('self', 'above', 'backward')))),
        ('cloud', lambda: denormalized(models.TextField, skip=('name',))(compute('cloud', ('Tag', 'tags'), (owner(), 'owner_id'), skip=('rank',)))),
        ('best', lambda: denormalized(models.ForeignKey, 'Owner', null=True, on_delete=models.CASCADE, related_name='best_%(class)s')(compute('best', ('Part',)))),
        ('links', lambda: denormalized(models.ManyToManyField, 'Tag', related_name='linked_%(class)s')(compute('links', ('Part',)))),
        ('num', lambda: CountField('parts')),
        ('total', lambda: SumField('parts', field='amount')),
        ('ckey', key),
        ('note', lambda: cached(store)(compute('note', (owner(), 'owner'), ('Part',)))),
    ]
    return [(n, f) for n, f in fields if ONLY is None or n in ONLY or n in ('owner', 'above', 'tags')]


def more():
    return [
        ('extra', lambda: denormalized(models.TextField)(compute('extra', ('Part',), (owner(), 'owner')))),
        ('ekey', key),
        ('more', lambda: CountField('parts')),
    ]


def made(parts):
    return [(n, f()) for n, f in parts]


def own(name):
    """What the model declares besides."""
    return [('only_' + name.lower(), models.IntegerField(null=True))]


def declare():
    """The models named in the layout."""
    if FLAT:
        for n in LAYOUT:
            make(n, made(base() + (more() if FORM in ('multi', 'chain') and n != 'Beta' else [])) + own(n))
    else:
        b = make('Base', made(base()), abstract=True)
        if FORM == 'multi':
            m = make('More', made(more()), abstract=True)
        elif FORM == 'chain':
            m = make('Middle', made(more()), b, abstract=True)
        for n in LAYOUT:
            if FORM == 'multi' and n != 'Beta':
                make(n, own(n), b, m)
            elif FORM == 'chain' and n != 'Beta':
                make(n, own(n), m)
            else:
                make(n, own(n), b)
    if FORM == 'child':
        make('Child', [('size', models.IntegerField(null=True))], MADE[LAYOUT[0]])
    if FORM == 'proxy':
        make('Proxy', [], MADE[LAYOUT[0]], proxy=True)


if LATE:
    declare()
    parts()
    others()
else:
    others()
    declare()
    parts()

apps.models_ready = True


def save(name, how):
    from shapes import drive
    o = drive.instance(MADE[name], how)
    __vp__.note('begin', o)
    o.save()
    return o


def rebuild():
    from denorm import rebuildall
    __vp__.note('begin', 0)
    rebuildall()
