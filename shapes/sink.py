"""One table watched by many declarations; which of them exist is configurable."""
import __vp__
from django.apps import apps
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models
from denorm import denormalized, depend_on_related, CacheKeyField, CountField
from denorm.fields import SumField

ON = __vp__.config('on', ())
COND = __vp__.config('conditions', False)


def compute(name, obj):
    return __vp__.event('compute', name, obj)


class App:
    app_label = 'app'
    if 'unmanaged' in ON:
        managed = False
        ordering = ('-id',)
        verbose_name = 'entry'
        default_related_name = None


class Boss(models.Model):
    name = models.CharField(max_length=10, null=True)
    if 'b_val' in ON:
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Hub')
        def b_val(self):
            return compute('b_val', self)
    if 'b_ck' in ON:
        b_ck = CacheKeyField()
        b_ck.depend_on_related('Hub')
    if 'b_num' in ON:
        b_num = CountField('hubs', filter={'rank__gt': 1}) if COND else CountField('hubs')
    if 'b_num2' in ON:
        b_num2 = CountField('hubs', filter={'kind': 1}, exclude={'rank': 3}) if COND else CountField('hubs')
    if 'b_sum' in ON:
        b_sum = SumField('hubs', field='rank', exclude={'kind': 2}) if COND else SumField('hubs', field='rank')

    class Meta(App):
        pass


class Thing(models.Model):
    hubs = GenericRelation('Hub')
    if 't_val' in ON:
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Hub')
        def t_val(self):
            return compute('t_val', self)
    if 't_ck' in ON:
        t_ck = CacheKeyField()
        t_ck.depend_on_related('Hub')

    class Meta(App):
        pass


class Other(models.Model):
    hubs = GenericRelation('Hub')
    if 'o_val' in ON:
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Hub')
        def o_val(self):
            return compute('o_val', self)

    class Meta(App):
        pass


class Hub(models.Model):
    title = models.CharField(max_length=10, null=True)
    rank = models.IntegerField(null=True)
    kind = models.IntegerField()
    boss = models.ForeignKey(Boss, null=True, on_delete=models.CASCADE, related_name='hubs')
    content_type = models.ForeignKey(ContentType, null=True, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField(null=True)
    subject = GenericForeignKey()
    if 'h_val' in ON:
        @denormalized(models.CharField, max_length=10, null=True)
        def h_val(self):
            return compute('h_val', self)
    if 'h_val2' in ON:
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Boss)
        def h_val2(self):
            return compute('h_val2', self)

    class Meta(App):
        pass


class Item(models.Model):
    hub = models.ForeignKey(Hub, null=True, on_delete=models.CASCADE)
    if 'i_val' in ON:
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Hub)
        def i_val(self):
            return compute('i_val', self)
    if 'i_val2' in ON:
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Hub', skip=('title',))
        def i_val2(self):
            return compute('i_val2', self)
    if 'i_ck' in ON:
        i_ck = CacheKeyField()
        i_ck.depend_on_related(Hub)

    class Meta(App):
        pass


class Item2(models.Model):
    hub = models.ForeignKey(Hub, null=True, on_delete=models.CASCADE)
    if 'j_val' in ON:
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Hub)
        def j_val(self):
            return compute('j_val', self)

    class Meta(App):
        pass


class Group(models.Model):
    hubs = models.ManyToManyField(Hub, related_name='groups')
    if 'g_val' in ON:
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Hub)
        def g_val(self):
            return compute('g_val', self)
    if 'g_ck' in ON:
        g_ck = CacheKeyField()
        g_ck.depend_on_related(Hub)

    class Meta(App):
        pass


class Pick(models.Model):
    base = models.ForeignKey(Hub, null=True, on_delete=models.CASCADE, related_name='bases')
    if 'p_set' in ON:
        @denormalized(models.ManyToManyField, Boss, related_name='picked')
        @depend_on_related(Hub)
        def p_set(self):
            return compute('p_set', self)

    class Meta(App):
        pass


if 'proxy' in ON:
    class HubProxy(Hub):
        class Meta(App):
            proxy = True

    class BossProxy(Boss):
        class Meta(App):
            proxy = True

if 'swapped' in ON:
    class Swapped(models.Model):
        hub = models.ForeignKey(Hub, null=True, on_delete=models.CASCADE, related_name='+')

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Hub)
        def s_val(self):
            return compute('s_val', self)

        class Meta(App):
            swappable = 'APP_SWAPPED_MODEL'

if 'child' in ON:
    class HubChild(Hub):
        extra = models.IntegerField(null=True)

        class Meta(App):
            pass

    class BossChild(Boss):
        extra = models.IntegerField(null=True)

        class Meta(App):
            pass

apps.models_ready = True
