"""A model whose changes are watched, with skip declarations."""
import __vp__
from django.apps import apps
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models
from denorm import denormalized, depend_on_related, CacheKeyField, CountField, cached
from denorm.fields import SumField

KIND = __vp__.config('kind', 'forward')
SKIP = __vp__.config('skip')
SKIP2 = __vp__.config('skip2')
ALWAYS = __vp__.config('always')
SECOND = __vp__.config('second', False)
INHERITED = KIND in ('backward', 'm2m', 'cd_forward', 'ck_backward', 'ck_generic')


def compute(name, obj):
    return __vp__.event('compute', name, obj)


class Store(object):
    def get(self, key, default=None):
        return __vp__.event('cache.get', key)

    def set(self, key, value, timeout=None):
        __vp__.note('cache.set', key, value)


def key_field(model):
    if KIND.startswith('ck_'):
        f = CacheKeyField()
        f.depend_on_related(model, skip=SKIP)
        return f

    def val(self):
        return compute('val', self)
    return cached(Store())(depend_on_related(model, skip=SKIP)(val))


class GeoField(models.Field):
    """Column of a type the framework knows nothing about."""
    def get_internal_type(self):
        return 'GeoField'


class Other(models.Model):
    class Meta:
        app_label = 'app'


class Base(models.Model):
    a = models.CharField(max_length=10, null=True)
    n = models.IntegerField(null=True)
    g = GeoField(null=True)
    ref = models.ForeignKey(Other, null=True, on_delete=models.CASCADE)
    one = models.OneToOneField(Other, null=True, related_name='watched_one', on_delete=models.CASCADE)
    t = models.TextField(null=True)
    flag = models.NullBooleanField()
    dec = models.DecimalField(max_digits=5, decimal_places=2, null=True)
    day = models.DateTimeField(null=True)
    stamp = models.DateTimeField(null=True, auto_now=True)
    born = models.DateField(null=True, auto_now_add=True, editable=False)
    raw = models.BinaryField(null=True)
    uid = models.UUIDField(null=True, unique=True, db_column='Unique Id')
    doc = models.FileField(null=True, blank=True)
    late = models.DurationField(null=True, default=None)

    if ALWAYS is not None and INHERITED:
        denorm_always_skip = list(ALWAYS)

    class Meta:
        app_label = 'app'
        abstract = True


if KIND == 'own':
    class Watched(Base):
        if ALWAYS is not None and not INHERITED:
            denorm_always_skip = ALWAYS

        @denormalized(models.CharField, max_length=10, null=True, skip=SKIP)
        def val(self):
            return compute('val', self)

        if SECOND:
            @denormalized(models.CharField, max_length=10, null=True, skip=SKIP2)
            def val2(self):
                return compute('val2', self)

        class Meta:
            app_label = 'app'
elif KIND in ('forward', 'ck_forward', 'cd_forward'):
    class Watched(Base):
        if ALWAYS is not None and not INHERITED:
            denorm_always_skip = ALWAYS

        class Meta:
            app_label = 'app'

    class Plain(models.Model):
        """Gives the watched model a reverse one-to-one accessor."""
        w = models.OneToOneField(Watched, null=True, on_delete=models.CASCADE)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        w = models.ForeignKey(Watched, null=True, on_delete=models.CASCADE)
        if KIND == 'forward':
            @denormalized(models.CharField, max_length=10, null=True)
            @depend_on_related(Watched, skip=SKIP)
            def val(self):
                return compute('val', self)
        else:
            ck = key_field(Watched)

        class Meta:
            app_label = 'app'

    if SECOND:
        class Second(models.Model):
            w = models.ForeignKey(Watched, null=True, on_delete=models.CASCADE)

            @denormalized(models.CharField, max_length=10, null=True)
            @depend_on_related(Watched, skip=SKIP2)
            def val(self):
                return compute('val', self)

            class Meta:
                app_label = 'app'
elif KIND in ('backward', 'ck_backward', 'cd_backward', 'count', 'sum'):
    class Item(models.Model):
        if KIND == 'backward':
            @denormalized(models.CharField, max_length=10, null=True)
            @depend_on_related('Watched', skip=SKIP)
            def val(self):
                return compute('val', self)
        elif KIND in ('ck_backward', 'cd_backward'):
            ck = key_field('Watched')
        elif KIND == 'count':
            num = CountField('watched_set', skip=SKIP)
        else:
            num = SumField('watched_set', 'n', skip=SKIP)

        class Meta:
            app_label = 'app'

    if SECOND:
        class Second(models.Model):
            @denormalized(models.CharField, max_length=10, null=True)
            @depend_on_related('Watched', skip=SKIP2)
            def val(self):
                return compute('val', self)

            class Meta:
                app_label = 'app'

    class Watched(Base):
        if ALWAYS is not None and not INHERITED:
            denorm_always_skip = ALWAYS
        item = models.ForeignKey(Item, null=True, on_delete=models.CASCADE)
        if SECOND:
            second = models.ForeignKey(Second, null=True, on_delete=models.CASCADE)

        class Meta:
            app_label = 'app'
elif KIND in ('m2m', 'ck_m2m', 'cd_m2m'):
    class Watched(Base):
        if ALWAYS is not None and not INHERITED:
            denorm_always_skip = ALWAYS

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        ws = models.ManyToManyField(Watched)
        if KIND == 'm2m':
            @denormalized(models.CharField, max_length=10, null=True)
            @depend_on_related(Watched, skip=SKIP)
            def val(self):
                return compute('val', self)
        else:
            ck = key_field(Watched)

        class Meta:
            app_label = 'app'
else:
    class Watched(Base):
        if ALWAYS is not None and not INHERITED:
            denorm_always_skip = ALWAYS
        content_type = models.ForeignKey(ContentType, null=True, on_delete=models.CASCADE)
        object_id = models.PositiveIntegerField(null=True)
        subject = GenericForeignKey()

        class Meta:
            app_label = 'app'

    class Plain(models.Model):
        w = models.OneToOneField(Watched, null=True, on_delete=models.CASCADE)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        ws = GenericRelation(Watched)
        if KIND == 'generic':
            @denormalized(models.CharField, max_length=10, null=True)
            @depend_on_related(Watched, skip=SKIP)
            def val(self):
                return compute('val', self)
        else:
            ck = key_field(Watched)

        class Meta:
            app_label = 'app'

apps.models_ready = True
