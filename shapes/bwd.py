"""Computed field depending on a model that references the field's own model."""
import __vp__
from django.apps import apps
from django.db import models
from denorm import denormalized, depend_on_related

VARIANT = __vp__.config('variant', 'plain')


def compute(name, obj):
    return __vp__.event('compute', name, obj)


if VARIANT == 'self':
    class Owner(models.Model):
        parent = models.ForeignKey('self', null=True, on_delete=models.CASCADE)
        note = models.CharField(max_length=10, null=True)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('self', type='backward')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
elif VARIANT == 'both':
    class Owner(models.Model):
        parent = models.ForeignKey('self', null=True, on_delete=models.CASCADE)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('self', type='backward')
        def val(self):
            return compute('val', self)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('self', type='forward')
        def val2(self):
            return compute('val2', self)

        class Meta:
            app_label = 'app'
elif VARIANT == 'keys':
    class Owner(models.Model):
        okey = models.CharField(max_length=10, primary_key=True)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Item')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        ikey = models.UUIDField(primary_key=True)
        parent = models.ForeignKey(Owner, null=True, db_constraint=False, editable=False, on_delete=models.DO_NOTHING)
        note = models.CharField(max_length=10, null=True)

        class Meta:
            app_label = 'app'
elif VARIANT == 'code':
    class Owner(models.Model):
        code = models.CharField(max_length=10, unique=True)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Item')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        parent = models.ForeignKey(Owner, to_field='code', null=True, on_delete=models.CASCADE)
        note = models.CharField(max_length=10, null=True)

        class Meta:
            app_label = 'app'
elif VARIANT == 'strict':
    class Owner(models.Model):
        number = models.AutoField(primary_key=True, db_column='Nr')

        @denormalized(models.CharField, max_length=10, db_column='Val')
        @depend_on_related('Item')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
            db_table = 'Owners'

    class Item(models.Model):
        number = models.BigAutoField(primary_key=True, db_column='Item Nr')
        parent = models.ForeignKey(Owner, on_delete=models.PROTECT, related_name='+', db_column='belongs to')
        note = models.CharField(max_length=10, db_column='Note')

        class Meta:
            app_label = 'app'
            db_table = 'order'
elif VARIANT == 'two':
    class Owner(models.Model):
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Item', foreign_key='parent')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        other = models.ForeignKey(Owner, null=True, on_delete=models.CASCADE, related_name='x1')
        parent = models.ForeignKey(Owner, null=True, blank=True, db_index=False, on_delete=models.SET_NULL, related_name='x2')

        class Meta:
            app_label = 'app'
elif VARIANT == 'o2o':
    class Owner(models.Model):
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Item')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        parent = models.OneToOneField(Owner, null=True, default=None, on_delete=models.SET_DEFAULT)
        note = models.CharField(max_length=10, null=True)

        class Meta:
            app_label = 'app'
elif VARIANT == 'pkrel':
    class Owner(models.Model):
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Item')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        parent = models.OneToOneField(Owner, primary_key=True, on_delete=models.CASCADE)
        note = models.CharField(max_length=10, null=True)

        class Meta:
            app_label = 'app'
else:
    class Owner(models.Model):
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Item')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        parent = models.ForeignKey(Owner, null=True, on_delete=models.CASCADE)
        note = models.CharField(max_length=10, null=True)

        class Meta:
            app_label = 'app'

apps.models_ready = True
