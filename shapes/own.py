"""Rows with a computed field of their own, next to one with a dependency."""
import __vp__
from django.apps import apps
from django.db import models
from denorm import denormalized, depend_on_related

VARIANT = __vp__.config('variant', 'plain')


def compute(name, obj):
    return __vp__.event('compute', name, obj)


class Owner(models.Model):
    title = models.CharField(max_length=10, null=True)

    class Meta:
        app_label = 'app'


class Item(models.Model):
    if VARIANT == 'keys':
        ikey = models.CharField(max_length=10, primary_key=True)
    owner = models.ForeignKey(Owner, null=True, on_delete=models.CASCADE)
    note = models.CharField(max_length=10, null=True)

    @denormalized(models.CharField, max_length=10, null=True)
    def val(self):
        return compute('val', self)

    if VARIANT != 'single':
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Owner)
        def val2(self):
            return compute('val2', self)

    class Meta:
        app_label = 'app'


class Bystander(models.Model):
    note = models.CharField(max_length=10, null=True)

    class Meta:
        app_label = 'app'


apps.models_ready = True
