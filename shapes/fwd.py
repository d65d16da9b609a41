"""Computed field depending on the model its own model references."""
import __vp__
from django.apps import apps
from django.db import models
from denorm import denormalized, depend_on_related

VARIANT = __vp__.config('variant', 'plain')


def compute(name, obj):
    return __vp__.event('compute', name, obj)


if VARIANT == 'self':
    class Item(models.Model):
        owner = models.ForeignKey('self', null=True, on_delete=models.CASCADE)
        title = models.CharField(max_length=10, null=True)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('self')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
elif VARIANT == 'late':
    class Item(models.Model):
        owner = models.ForeignKey('Owner', null=True, blank=True, db_index=False, on_delete=models.SET_NULL)
        note = models.CharField(max_length=10, null=True)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Owner')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

    class Owner(models.Model):
        title = models.CharField(max_length=10, null=True)
        rank = models.IntegerField(null=True)

        class Meta:
            app_label = 'app'
elif VARIANT == 'keys':
    class Owner(models.Model):
        okey = models.CharField(max_length=10, primary_key=True)
        title = models.CharField(max_length=10, null=True)
        rank = models.IntegerField(null=True)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        ikey = models.UUIDField(primary_key=True)
        owner = models.ForeignKey(Owner, null=True, db_constraint=False, editable=False, on_delete=models.DO_NOTHING)
        note = models.CharField(max_length=10, null=True)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Owner)
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
elif VARIANT == 'code':
    class Owner(models.Model):
        code = models.CharField(max_length=10, unique=True)
        title = models.CharField(max_length=10, null=True)
        rank = models.IntegerField(null=True)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        owner = models.ForeignKey(Owner, to_field='code', null=True, on_delete=models.CASCADE)
        note = models.CharField(max_length=10, null=True)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Owner)
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
elif VARIANT == 'strict':
    class Owner(models.Model):
        number = models.AutoField(primary_key=True, db_column='Nr')
        title = models.CharField(max_length=10, db_column='Name Of')
        rank = models.IntegerField(db_index=True)

        class Meta:
            app_label = 'app'
            db_table = 'Owners'

    class Item(models.Model):
        number = models.BigAutoField(primary_key=True, db_column='Item Nr')
        owner = models.ForeignKey(Owner, on_delete=models.PROTECT, related_name='+', db_column='belongs to')
        note = models.CharField(max_length=10)

        @denormalized(models.CharField, max_length=10, db_column='Val')
        @depend_on_related(Owner)
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
            db_table = 'order'
elif VARIANT == 'two':
    class Owner(models.Model):
        title = models.CharField(max_length=10, null=True)
        rank = models.IntegerField(null=True)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        first = models.ForeignKey(Owner, null=True, on_delete=models.CASCADE, related_name='items1')
        owner = models.ForeignKey(Owner, null=True, default=None, on_delete=models.SET_DEFAULT, related_name='items2')

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Owner, foreign_key='owner')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
elif VARIANT == 'o2o':
    class Owner(models.Model):
        title = models.CharField(max_length=10, null=True)
        rank = models.IntegerField(null=True)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        owner = models.OneToOneField(Owner, null=True, on_delete=models.SET_NULL)
        note = models.CharField(max_length=10, null=True)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Owner)
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
elif VARIANT == 'pkrel':
    class Owner(models.Model):
        title = models.CharField(max_length=10, null=True)
        rank = models.IntegerField(null=True)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        owner = models.OneToOneField(Owner, primary_key=True, on_delete=models.CASCADE)
        note = models.CharField(max_length=10, null=True)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Owner)
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
else:
    class Owner(models.Model):
        title = models.CharField(max_length=10, null=True)
        rank = models.IntegerField(null=True)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        owner = models.ForeignKey(Owner, null=True, on_delete=models.CASCADE)
        note = models.CharField(max_length=10, null=True)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Owner)
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

apps.models_ready = True
