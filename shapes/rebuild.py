"""Models with and without denormalized fields in two applications."""
import __vp__
from django.apps import apps
from django.db import models
from denorm import denormalized, depend_on_related, CountField, CacheKeyField


class Shown(models.Manager):
    def get_queryset(self):
        return super(Shown, self).get_queryset().filter(hidden=False)


class Base(models.Model):
    @denormalized(models.CharField, max_length=10, null=True)
    def shared(self):
        return __vp__.event('compute', 'shared', self)

    class Meta:
        abstract = True
        app_label = 'two'


class Item(models.Model):
    hidden = models.BooleanField(default=False)
    objects = Shown()

    @denormalized(models.CharField, max_length=10, null=True)
    def val(self):
        return __vp__.event('compute', 'val', self)

    @denormalized(models.CharField, max_length=10, null=True)
    def val2(self):
        return __vp__.event('compute', 'val2', self)

    class Meta:
        app_label = 'one'


class Plain(models.Model):
    title = models.CharField(max_length=10)

    class Meta:
        app_label = 'one'


class Box(models.Model):
    num = CountField('slip_set')

    class Meta:
        app_label = 'one'


class Slip(models.Model):
    box = models.ForeignKey(Box, null=True, on_delete=models.CASCADE)

    class Meta:
        app_label = 'one'


class two(models.Model):
    code = models.CharField(max_length=10, primary_key=True)

    @denormalized(models.ForeignKey, to=Plain, null=True, on_delete=models.CASCADE)
    def plain(self):
        return __vp__.event('compute', 'plain', self)

    class Meta:
        app_label = 'one'


class Tagged(models.Model):
    @denormalized(models.ManyToManyField, to=Plain)
    def tags(self):
        return __vp__.event('compute', 'tags', self)

    class Meta:
        app_label = 'one'


One = Item


class Item(models.Model):
    @denormalized(models.CharField, max_length=10, null=True)
    def val(self):
        return __vp__.event('compute', 'val', self)

    class Meta:
        app_label = 'two'


class Child(Item):
    more = models.CharField(max_length=10)

    class Meta:
        app_label = 'two'


class Other(Item):
    class Meta:
        app_label = 'two'
        proxy = True


class Conc(Base):
    class Meta:
        app_label = 'two'


class Conc2(Base):
    class Meta:
        app_label = 'one'


class Keyed(models.Model):
    key = CacheKeyField()

    class Meta:
        app_label = 'two'


class Priced(models.Model):
    @denormalized(models.CharField, max_length=10, null=True)
    def interval(self):
        return __vp__.event('compute', 'interval', self)

    class Meta:
        app_label = 'two'


apps.models_ready = True

# what each model declares
DECLARED = {
    'one.Item': ('val', 'val2'), 'one.Box': ('num',), 'one.two': ('plain',), 'one.Tagged': ('tags',),
    'two.Item': ('val',), 'two.Conc': ('shared',), 'one.Conc2': ('shared',), 'two.Keyed': ('key',), 'two.Priced': ('interval',),
}
