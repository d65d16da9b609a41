"""Computed field depending on a model through a many-to-many or generic relation."""
import __vp__
from django.apps import apps
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models
from denorm import denormalized, depend_on_related

VARIANT = __vp__.config('variant', 'forward')
NAMED = dict(content_type_field='about', object_id_field='which') if VARIANT == 'gnamed' else {}


def compute(name, obj):
    return __vp__.event('compute', name, obj)


if VARIANT == 'forward':
    class Tag(models.Model):
        name = models.CharField(max_length=10, null=True)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        tags = models.ManyToManyField(Tag)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Tag)
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
elif VARIANT == 'backward':
    class Item(models.Model):
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Tag')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

    class Tag(models.Model):
        name = models.CharField(max_length=10, null=True)
        items = models.ManyToManyField(Item)

        class Meta:
            app_label = 'app'
elif VARIANT == 'keys':
    class Tag(models.Model):
        tkey = models.CharField(max_length=10, primary_key=True)
        name = models.CharField(max_length=10, null=True)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        ikey = models.UUIDField(primary_key=True)
        tags = models.ManyToManyField(Tag)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Tag)
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
elif VARIANT == 'bkeys':
    class Item(models.Model):
        ikey = models.UUIDField(primary_key=True)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Tag', foreign_key='items')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

    class Tag(models.Model):
        tkey = models.CharField(max_length=10, primary_key=True)
        name = models.CharField(max_length=10, null=True)
        others = models.ManyToManyField(Item, related_name='tags1')
        items = models.ManyToManyField(Item, related_name='tags2')

        class Meta:
            app_label = 'app'
elif VARIANT in ('strict', 'bstrict'):
    class Tag(models.Model):
        number = models.AutoField(primary_key=True, db_column='Tag Nr')
        name = models.CharField(max_length=10, db_column='Name')
        if VARIANT == 'bstrict':
            items = models.ManyToManyField('Item', db_table='Links', related_name='+')

        class Meta:
            app_label = 'app'
            db_table = 'Tags'

    class Item(models.Model):
        number = models.BigAutoField(primary_key=True, db_column='Item Nr')
        if VARIANT == 'strict':
            tags = models.ManyToManyField(Tag, db_table='Links', related_name='+')

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Tag)
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
            db_table = 'order'
elif VARIANT in ('bself', 'symm'):
    class Item(models.Model):
        name = models.CharField(max_length=10, null=True)
        links = models.ManyToManyField('self', symmetrical=VARIANT == 'symm')

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('self', type='backward_m2m' if VARIANT == 'bself' else 'forward_m2m')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
elif VARIANT == 'bthrough':
    class Item(models.Model):
        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('Tag')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

    class Tag(models.Model):
        name = models.CharField(max_length=10, null=True)
        items = models.ManyToManyField(Item, through='Link')

        class Meta:
            app_label = 'app'

    class Link(models.Model):
        label = models.ForeignKey(Tag, on_delete=models.CASCADE, db_column='lbl')
        thing = models.ForeignKey(Item, on_delete=models.CASCADE, db_column='thg')
        note = models.CharField(max_length=10, null=True)

        class Meta:
            app_label = 'app'
elif VARIANT == 'self':
    class Item(models.Model):
        name = models.CharField(max_length=10, null=True)
        links = models.ManyToManyField('self', symmetrical=False)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related('self')
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'
elif VARIANT == 'through':
    class Tag(models.Model):
        name = models.CharField(max_length=10, null=True)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        tags = models.ManyToManyField(Tag, through='Link')

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Tag)
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

    class Link(models.Model):
        label = models.ForeignKey(Tag, on_delete=models.CASCADE)
        thing = models.ForeignKey(Item, on_delete=models.CASCADE)
        note = models.CharField(max_length=10, null=True)

        class Meta:
            app_label = 'app'
else:
    class Comment(models.Model):
        content_type = models.ForeignKey(ContentType, null=True, on_delete=models.CASCADE)
        object_id = models.PositiveIntegerField(null=True)
        subject = GenericForeignKey()
        if VARIANT == 'gnamed':
            about = models.ForeignKey(ContentType, null=True, on_delete=models.CASCADE, related_name='+', db_column='About')
            which = models.PositiveIntegerField(null=True, db_column='order')
            matter = GenericForeignKey('about', 'which')
        text = models.CharField(max_length=10, null=True)

        class Meta:
            app_label = 'app'

    class Item(models.Model):
        comments = GenericRelation(Comment, **NAMED)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Comment)
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

    class Thing(models.Model):
        comments = GenericRelation(Comment, **NAMED)

        @denormalized(models.CharField, max_length=10, null=True)
        @depend_on_related(Comment)
        def val(self):
            return compute('val', self)

        class Meta:
            app_label = 'app'

apps.models_ready = True
