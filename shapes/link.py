"""Pairs of models related in several ways, one of them depending on the other."""
import __vp__
from django.apps import apps
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models
from denorm import denormalized, depend_on_related, cached, CacheKeyField

Model = type(models.Model)


class Store(object):
    def get(self, key):
        return __vp__.event('store.get', key)

    def set(self, key, value, timeout=None):
        __vp__.event('store.set', key, value)


store = Store()


def value(self):
    return __vp__.event('computed', self)


def make(name, fields):
    attrs = dict(fields)
    attrs['Meta'] = type('Meta', (object,), {'app_label': 'app'})
    attrs['__module__'] = __name__
    return Model(name, (models.Model,), attrs)


def called(r):
    return 'zed' if r[1] == 'z' else r


def relation(kind, to, key):
    if kind[1] == 'p':
        return models.OneToOneField(to, primary_key=True, on_delete=models.CASCADE, related_name=key)
    if kind[1] == 'o' and kind[0] != 'm':
        return models.OneToOneField(to, null=True, on_delete=models.CASCADE, related_name=key)
    if kind[0] in 'fb' or kind in ('sa', 'sb'):
        return models.ForeignKey(to, null=True, on_delete=models.CASCADE, related_name=key, db_column='spalte_' + kind if kind[1] == 'b' else None)
    if kind[0] == 's':
        return models.ManyToManyField(to, symmetrical=False, related_name=key)
    if kind[0] == 'g':
        return GenericRelation(to)
    return models.ManyToManyField(to, related_name=key)


def dependent(kind, model, name, type_):
    kw = {}
    if name is not None:
        kw['foreign_key'] = name
    if type_ is not None:
        kw['type'] = type_
    if kind == 'ckey':
        field = CacheKeyField()
        field.depend_on_related(model, **kw)
        return field
    if kind == 'note':
        def func(self):
            return __vp__.event('computed', self)
        return cached(store)(depend_on_related(model, **kw)(func))

    def func(self):
        return __vp__.event('computed', self)
    return denormalized(models.TextField)(depend_on_related(model, **kw)(func))


def build(g, rels, target, form, name, type_, first, kind, noise):
    """This depends on Other."""
    this, other = 'This%d' % g, 'Other%d' % g
    found = {}

    def ref(to, how):
        if how == 'class' and to in found:
            return found[to]
        return 'app.' + to if how == 'dotted' else to.upper() if how == 'upper' else to

    def make_other():
        fields = [('title', models.CharField(max_length=10, null=True))]
        if 'ga' in rels:
            fields += [('content_type', models.ForeignKey(ContentType, null=True, on_delete=models.CASCADE)), ('object_id', models.IntegerField(null=True)),
                       ('whole', GenericForeignKey())]
        fields += [(called(r), relation(r, ref(this, target), 'to_%d_%s' % (g, r))) for r in rels if r[0] in 'bn']
        found[other] = make(other, fields)

    def make_this():
        fields = [('note', models.CharField(max_length=10, null=True))]
        fields += [(called(r), relation(r, ref(other, target), 'to_%d_%s' % (g, r))) for r in rels if r[0] in 'fmg']
        fields += [(called(r), relation(r, 'self' if target != 'name' else this, 'to_%d_%s' % (g, r))) for r in rels if r[0] == 's']
        if noise:
            fields += [('th', models.ForeignKey('Third', null=True, on_delete=models.CASCADE, related_name='from_%d' % g)),
                       ('tm', models.ManyToManyField('Third', related_name='mfrom_%d' % g))]
        found['dep'] = dependent(kind, 'self' if form == 'self' else ref(this, form) if rels and rels[0][0] == 's' else ref(other, form), name, type_)
        fields.append(('val', found['dep']))
        found[this] = make(this, fields)
    if rels and rels[0][0] == 's':
        make_this()
    elif first == 'other':
        make_other()
        make_this()
    else:
        make_this()
        make_other()


make('Third', [('word', models.CharField(max_length=10, null=True))])

for case in __vp__.config('cases', ()):
    if __vp__.config('refused', False):
        try:
            build(*case)
        except Exception as e:
            __vp__.event('refused', case[0], type(e).__name__)
        else:
            __vp__.event('accepted', case[0])
    else:
        build(*case)

apps.models_ready = True
