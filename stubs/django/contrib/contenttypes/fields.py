import __vp__
from django.contrib.contenttypes.models import ContentType
from django.core.exceptions import ObjectDoesNotExist
from django.db import DEFAULT_DB_ALIAS, models
from django.db.models import DO_NOTHING
from django.db.models.fields.mixins import FieldCacheMixin
from django.db.models.fields.related import ForeignObject, ForeignObjectRel, RelatedField, ReverseManyToOneDescriptor, lazy_related_operation
__vp_open__ = 'django.contrib.contenttypes.fields'


class GenericForeignKey(FieldCacheMixin):
    __vp_open__ = 'django.contrib.contenttypes.fields'
    __vp_absent__ = ('attname', 'rel', 'denorm', 'related')
    auto_created = False
    concrete = False
    editable = False
    hidden = False
    is_relation = True
    many_to_many = False
    many_to_one = True
    one_to_many = False
    one_to_one = False
    related_model = None
    remote_field = None

    def __init__(self, ct_field='content_type', fk_field='object_id', for_concrete_model=True):
        self.ct_field = ct_field
        self.fk_field = fk_field
        self.for_concrete_model = for_concrete_model
        self.rel = None
        self.column = None

    def contribute_to_class(self, cls, name, **kwargs):
        self.name = name
        self.model = cls
        cls._meta.add_field(self, private=True)
        setattr(cls, name, self)

    def get_cache_name(self):
        return self.name

    def get_content_type(self, obj=None, id=None, using=None):
        if obj is not None:
            return ContentType.objects.db_manager(obj._state.db).get_for_model(obj, for_concrete_model=self.for_concrete_model)
        return ContentType.objects.db_manager(using).get_for_id(id)

    def __get__(self, instance, cls=None):
        if instance is None:
            return self
        f = self.model._meta.get_field(self.ct_field)
        ct_id = getattr(instance, f.get_attname(), None)
        pk_val = getattr(instance, self.fk_field)
        rel_obj = self.get_cached_value(instance, default=None)
        if rel_obj is not None:
            return rel_obj
        if ct_id is not None:
            ct = self.get_content_type(id=ct_id, using=instance._state.db)
            try:
                rel_obj = ct.get_object_for_this_type(pk=pk_val)
            except ObjectDoesNotExist:
                pass
        self.set_cached_value(instance, rel_obj)
        return rel_obj

    def __set__(self, instance, value):
        ct = None
        fk = None
        if value is not None:
            ct = self.get_content_type(obj=value)
            fk = value.pk
        setattr(instance, self.ct_field, ct)
        setattr(instance, self.fk_field, fk)
        self.set_cached_value(instance, value)


class GenericRel(ForeignObjectRel):
    def __init__(self, field, to, related_name=None, related_query_name=None, limit_choices_to=None):
        super().__init__(field, to, related_name=related_query_name or '+', related_query_name=related_query_name,
                         limit_choices_to=limit_choices_to, on_delete=DO_NOTHING)


class GenericRelation(ForeignObject):
    auto_created = False
    many_to_many = False
    many_to_one = False
    one_to_many = True
    one_to_one = False
    rel_class = GenericRel

    def __init__(self, to, object_id_field='object_id', content_type_field='content_type',
                 for_concrete_model=True, related_query_name=None, limit_choices_to=None, **kwargs):
        kwargs['rel'] = self.rel_class(self, to, related_query_name=related_query_name, limit_choices_to=limit_choices_to)
        kwargs['blank'] = True
        kwargs['on_delete'] = models.CASCADE
        kwargs['editable'] = False
        kwargs['serialize'] = False
        super().__init__(to, from_fields=[object_id_field], to_fields=[], **kwargs)
        self.object_id_field_name = object_id_field
        self.content_type_field_name = content_type_field
        self.for_concrete_model = for_concrete_model

    def resolve_related_fields(self):
        self.to_fields = [self.model._meta.pk.name]
        return [(self.remote_field.model._meta.get_field(self.object_id_field_name), self.model._meta.pk)]

    def get_attname_column(self):
        return self.get_attname(), None

    def get_internal_type(self):
        return "ManyToManyField"

    def set_attributes_from_rel(self):
        pass

    def contribute_to_class(self, cls, name, **kwargs):
        kwargs['private_only'] = True
        super().contribute_to_class(cls, name, **kwargs)
        self.model = cls
        if not cls._meta.abstract:
            def vp_noop(model):
                return None
        setattr(cls, self.name, ReverseGenericManyToOneDescriptor(self.remote_field))

    def contribute_to_related_class(self, cls, related):
        return None


class ReverseGenericManyToOneDescriptor(ReverseManyToOneDescriptor):
    pass
