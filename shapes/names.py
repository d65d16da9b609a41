"""Every kind of declaration, with awkward names for all tables and columns."""
import __vp__
from django.apps import apps
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models
from denorm import denormalized, depend_on_related, CacheKeyField, CountField
from denorm.fields import SumField

ROLES = __vp__.config('role', ())
WORD = __vp__.config('word')
STYLE = __vp__.config('style', 'Mixed%s')
ON = __vp__.config('on', ())


def n(role):
    return WORD if role in ROLES else STYLE % role


def compute(name, obj):
    return __vp__.event('compute', name, obj)


class Owner(models.Model):
    id = models.AutoField(primary_key=True, db_column=n('OwnerId'))
    title = models.CharField(max_length=10, null=True, db_column=n('OwnerTitle'))
    tags = models.ManyToManyField('Tag', through='Link')
    notes = GenericRelation('Note', content_type_field='about', object_id_field='which')
    if 'b_val' in ON:
        @denormalized(models.CharField, max_length=10, null=True, db_column=n('OwnerVal'))
        @depend_on_related('Item')
        def val(self):
            return compute('val', self)
    if 'b_ck' in ON:
        key = CacheKeyField(db_column=n('OwnerKey'))
        key.depend_on_related('Item')
    if 'num' in ON:
        num = CountField('items', db_column=n('OwnerNum'))
    if 'sum' in ON:
        total = SumField('items', field='rank', db_column=n('OwnerSum'))
    if 'm_val' in ON:
        @denormalized(models.CharField, max_length=10, null=True, db_column=n('OwnerMVal'))
        @depend_on_related('Tag')
        def mval(self):
            return compute('mval', self)
    if 'm_ck' in ON:
        mkey = CacheKeyField(db_column=n('OwnerMKey'))
        mkey.depend_on_related('Tag')
    if 'g_val' in ON:
        @denormalized(models.CharField, max_length=10, null=True, db_column=n('OwnerGVal'))
        @depend_on_related('Note')
        def gval(self):
            return compute('gval', self)
    if 'g_ck' in ON:
        gkey = CacheKeyField(db_column=n('OwnerGKey'))
        gkey.depend_on_related('Note')

    class Meta:
        app_label = 'app'
        db_table = n('OwnerTable')


class Item(models.Model):
    id = models.AutoField(primary_key=True, db_column=n('ItemId'))
    owner = models.ForeignKey(Owner, null=True, on_delete=models.CASCADE, related_name='items', db_column=n('ItemFk'))
    rank = models.IntegerField(null=True, db_column=n('ItemRank'))
    if 'f_val' in ON:
        @denormalized(models.CharField, max_length=10, null=True, db_column=n('ItemVal'))
        @depend_on_related('Owner')
        def val(self):
            return compute('val', self)
    if 'f_ck' in ON:
        key = CacheKeyField(db_column=n('ItemKey'))
        key.depend_on_related('Owner')

    class Meta:
        app_label = 'app'
        db_table = n('ItemTable')


class Tag(models.Model):
    id = models.AutoField(primary_key=True, db_column=n('TagId'))
    title = models.CharField(max_length=10, null=True, db_column=n('TagTitle'))
    if 'r_val' in ON:
        @denormalized(models.CharField, max_length=10, null=True, db_column=n('TagVal'))
        @depend_on_related('Owner')
        def val(self):
            return compute('val', self)
    if 'r_ck' in ON:
        key = CacheKeyField(db_column=n('TagKey'))
        key.depend_on_related('Owner')

    class Meta:
        app_label = 'app'
        db_table = n('TagTable')


class Link(models.Model):
    id = models.AutoField(primary_key=True, db_column=n('LinkId'))
    owner = models.ForeignKey(Owner, on_delete=models.CASCADE, db_column=n('LinkOwner'))
    tag = models.ForeignKey(Tag, on_delete=models.CASCADE, db_column=n('LinkTag'))

    class Meta:
        app_label = 'app'
        db_table = n('LinkTable')


class Note(models.Model):
    id = models.AutoField(primary_key=True, db_column=n('NoteId'))
    about = models.ForeignKey(ContentType, on_delete=models.CASCADE, db_column=n('NoteCt'))
    which = models.PositiveIntegerField(null=True, db_column=n('NoteKey'))
    subject = GenericForeignKey('about', 'which')
    body = models.CharField(max_length=10, null=True, db_column=n('NoteBody'))

    class Meta:
        app_label = 'app'
        db_table = n('NoteTable')


apps.models_ready = True
