"""Cache keys depending on a model through every kind of relation."""
import __vp__
from django.apps import apps
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models
from denorm import CacheKeyField, cached, depend_on_related

VARIANT = __vp__.config('variant', 'forward')
NAMED = dict(content_type_field='about', object_id_field='which') if VARIANT == 'gnamed' else {}
KIND = __vp__.config('kind', 'key')


class Store(object):
    def get(self, key, default=None):
        return __vp__.event('cache.get', key)

    def set(self, key, value, timeout=None):
        __vp__.note('cache.set', key, value)


def key_field(*deps):
    """The field under analysis: a plain cache key or a cached function."""
    if KIND == 'key':
        f = CacheKeyField()
        for a, k in deps:
            f.depend_on_related(*a, **k)
        return f

    def val(self):
        return __vp__.event('compute', 'key', self)
    for a, k in deps:
        val = depend_on_related(*a, **k)(val)
    return cached(Store())(val)


def on(*a, **k):
    return (a, k)


class App:
    app_label = 'app'


if VARIANT in ('forward', 'late', 'o2o', 'many'):
    if VARIANT != 'late':
        class Owner(models.Model):
            title = models.CharField(max_length=10, null=True)
            rank = models.IntegerField(null=True)

            class Meta(App):
                pass

    class Item(models.Model):
        if VARIANT == 'o2o':
            owner = models.OneToOneField(Owner, null=True, on_delete=models.SET_NULL)
        else:
            owner = models.ForeignKey('Owner', null=True, on_delete=models.CASCADE)
        note = models.CharField(max_length=10, null=True)
        if VARIANT == 'many':
            peer = models.ForeignKey('self', null=True, on_delete=models.CASCADE)
            key = key_field(on('Owner'), on('Child'))
        else:
            key = key_field(on('Owner'))

        class Meta(App):
            pass

    if VARIANT == 'late':
        class Owner(models.Model):
            title = models.CharField(max_length=10, null=True)
            rank = models.IntegerField(null=True)

            class Meta(App):
                pass
    if VARIANT == 'many':
        class Child(models.Model):
            parent = models.ForeignKey(Item, null=True, on_delete=models.CASCADE)
            note = models.CharField(max_length=10, null=True)

            class Meta(App):
                pass
elif VARIANT == 'fkeys':
    class Owner(models.Model):
        okey = models.CharField(max_length=10, primary_key=True)
        title = models.CharField(max_length=10, null=True)

        class Meta(App):
            pass

    class Item(models.Model):
        ikey = models.UUIDField(primary_key=True)
        first = models.ForeignKey(Owner, null=True, on_delete=models.CASCADE, related_name='items1')
        owner = models.ForeignKey(Owner, null=True, default=None, on_delete=models.SET_DEFAULT, related_name='items2')
        key = key_field(on(Owner, foreign_key='owner'))

        class Meta(App):
            pass
elif VARIANT in ('fcode', 'fstrict'):
    class Owner(models.Model):
        if VARIANT == 'fcode':
            code = models.CharField(max_length=10, unique=True)
        else:
            number = models.AutoField(primary_key=True, db_column='Nr')
        title = models.CharField(max_length=10, null=True, db_column='Name Of')

        class Meta(App):
            db_table = 'Owners'

    class Item(models.Model):
        number = models.BigAutoField(primary_key=True, db_column='Item Nr')
        if VARIANT == 'fcode':
            owner = models.ForeignKey(Owner, to_field='code', null=True, on_delete=models.CASCADE)
        else:
            owner = models.ForeignKey(Owner, on_delete=models.PROTECT, related_name='+', db_column='belongs to')
        key = key_field(on(Owner))

        class Meta(App):
            db_table = 'order'
elif VARIANT in ('bcode', 'bstrict'):
    class Item(models.Model):
        if VARIANT == 'bcode':
            code = models.CharField(max_length=10, unique=True)
        else:
            number = models.AutoField(primary_key=True, db_column='Nr')
        key = key_field(on('Child'))

        class Meta(App):
            db_table = 'order'

    class Child(models.Model):
        if VARIANT == 'bcode':
            parent = models.ForeignKey(Item, to_field='code', null=True, on_delete=models.CASCADE)
        else:
            parent = models.ForeignKey(Item, on_delete=models.PROTECT, related_name='+', db_column='belongs to')
        note = models.CharField(max_length=10, null=True, db_column='Note')

        class Meta(App):
            db_table = 'Children'
elif VARIANT == 'fself':
    class Item(models.Model):
        owner = models.ForeignKey('self', null=True, on_delete=models.CASCADE)
        note = models.CharField(max_length=10, null=True)
        key = key_field(on('self'))

        class Meta(App):
            pass
elif VARIANT in ('backward', 'bo2o'):
    class Item(models.Model):
        note = models.CharField(max_length=10, null=True)
        key = key_field(on('Child'))

        class Meta(App):
            pass

    class Child(models.Model):
        if VARIANT == 'bo2o':
            parent = models.OneToOneField(Item, null=True, db_constraint=False, on_delete=models.DO_NOTHING)
        else:
            parent = models.ForeignKey(Item, null=True, on_delete=models.CASCADE)
        note = models.CharField(max_length=10, null=True)

        class Meta(App):
            pass
elif VARIANT == 'bkeys':
    class Item(models.Model):
        ikey = models.UUIDField(primary_key=True)
        key = key_field(on('Child', foreign_key='parent'))

        class Meta(App):
            pass

    class Child(models.Model):
        ckey = models.CharField(max_length=10, primary_key=True)
        other = models.ForeignKey(Item, null=True, on_delete=models.CASCADE, related_name='c1')
        parent = models.ForeignKey(Item, null=True, blank=True, db_index=False, on_delete=models.SET_NULL, related_name='c2')

        class Meta(App):
            pass
elif VARIANT == 'bself':
    class Item(models.Model):
        parent = models.ForeignKey('self', null=True, on_delete=models.CASCADE)
        note = models.CharField(max_length=10, null=True)
        key = key_field(on('self', type='backward'))

        class Meta(App):
            pass
elif VARIANT in ('m2m', 'mkeys', 'through'):
    class Tag(models.Model):
        if VARIANT == 'mkeys':
            tkey = models.CharField(max_length=10, primary_key=True)
        name = models.CharField(max_length=10, null=True)

        class Meta(App):
            pass

    class Item(models.Model):
        if VARIANT == 'mkeys':
            ikey = models.UUIDField(primary_key=True)
        if VARIANT == 'through':
            tags = models.ManyToManyField(Tag, through='Link')
        else:
            tags = models.ManyToManyField(Tag)
        note = models.CharField(max_length=10, null=True)
        key = key_field(on(Tag))

        class Meta(App):
            pass

    if VARIANT == 'through':
        class Link(models.Model):
            label = models.ForeignKey(Tag, on_delete=models.CASCADE)
            thing = models.ForeignKey(Item, on_delete=models.CASCADE)
            note = models.CharField(max_length=10, null=True)

            class Meta(App):
                pass
elif VARIANT == 'mback':
    class Item(models.Model):
        note = models.CharField(max_length=10, null=True)
        key = key_field(on('Tag'))

        class Meta(App):
            pass

    class Tag(models.Model):
        name = models.CharField(max_length=10, null=True)
        items = models.ManyToManyField(Item)

        class Meta(App):
            pass
elif VARIANT in ('mstrict', 'mbkeys'):
    class Tag(models.Model):
        number = models.AutoField(primary_key=True, db_column='Tag Nr')
        name = models.CharField(max_length=10, null=True, db_column='Name')
        if VARIANT == 'mbkeys':
            others = models.ManyToManyField('Item', related_name='tags1')
            items = models.ManyToManyField('Item', db_table='Links', related_name='tags2')

        class Meta(App):
            db_table = 'Tags'

    class Item(models.Model):
        number = models.BigAutoField(primary_key=True, db_column='Item Nr')
        note = models.CharField(max_length=10, null=True)
        if VARIANT == 'mstrict':
            tags = models.ManyToManyField(Tag, db_table='Links', related_name='+')
            key = key_field(on(Tag))
        else:
            key = key_field(on(Tag, foreign_key='items'))

        class Meta(App):
            db_table = 'order'
elif VARIANT in ('mself', 'mbself'):
    class Item(models.Model):
        links = models.ManyToManyField('self', symmetrical=False)
        note = models.CharField(max_length=10, null=True)
        key = key_field(on('self', type='backward_m2m') if VARIANT == 'mbself' else on('self'))

        class Meta(App):
            pass
elif VARIANT in ('generic', 'gnamed'):
    class Comment(models.Model):
        content_type = models.ForeignKey(ContentType, null=True, on_delete=models.CASCADE)
        object_id = models.PositiveIntegerField(null=True)
        subject = GenericForeignKey()
        if VARIANT == 'gnamed':
            about = models.ForeignKey(ContentType, null=True, on_delete=models.CASCADE, related_name='+', db_column='About')
            which = models.PositiveIntegerField(null=True, db_column='order')
            matter = GenericForeignKey('about', 'which')
        text = models.CharField(max_length=10, null=True)

        class Meta(App):
            pass

    class Item(models.Model):
        comments = GenericRelation(Comment, **NAMED)
        key = key_field(on(Comment))

        class Meta(App):
            pass

    class Thing(models.Model):
        comments = GenericRelation(Comment, **NAMED)
        key = key_field(on(Comment))

        class Meta(App):
            pass
elif VARIANT == 'alone':
    class Item(models.Model):
        note = models.CharField(max_length=10, null=True)
        key = key_field()

        class Meta(App):
            pass

apps.models_ready = True
