import __vp__
from django.db import router
from django.db.models.manager import Manager
__vp_open__ = 'django.db.models.fields.related_descriptors'


class ForwardManyToOneDescriptor(object):
    __vp_open__ = 'django.db.models.fields.related_descriptors'
    __vp_absent__ = ('related',)

    def __init__(self, field_with_rel):
        self.field = field_with_rel

    @property
    def RelatedObjectDoesNotExist(self):
        return type('RelatedObjectDoesNotExist', (self.field.remote_field.model.DoesNotExist, AttributeError), {})

    def is_cached(self, instance):
        return self.field.is_cached(instance)

    def get_object(self, instance):
        rel = self.field.remote_field
        if rel.model._meta.label == 'contenttypes.ContentType':
            return rel.model.objects.get_for_id(getattr(instance, self.field.attname))
        qs = rel.model._base_manager.db_manager(hints={'instance': instance}).all()
        return qs.get(**{rel.get_related_field().attname: getattr(instance, self.field.attname)})

    def __get__(self, instance, cls=None):
        if instance is None:
            return self
        try:
            rel_obj = self.field.get_cached_value(instance)
        except KeyError:
            if getattr(instance, self.field.attname) is None:
                rel_obj = None
            else:
                rel_obj = self.get_object(instance)
                rel = self.field.remote_field
                if not rel.multiple:
                    rel.set_cached_value(rel_obj, instance)
            self.field.set_cached_value(instance, rel_obj)
        if rel_obj is None and not self.field.null:
            raise self.RelatedObjectDoesNotExist("%s has no %s." % (self.field.model.__name__, self.field.name))
        return rel_obj

    def __set__(self, instance, value):
        if value is not None and not isinstance(value, self.field.remote_field.model._meta.concrete_model):
            raise ValueError('Cannot assign value: "%s.%s" must be a "%s" instance.' % (
                instance._meta.object_name, self.field.name, self.field.remote_field.model._meta.object_name))
        if value is None:
            setattr(instance, self.field.attname, None)
        else:
            setattr(instance, self.field.attname, getattr(value, self.field.target_field.attname))
        self.field.set_cached_value(instance, value)


class ForwardOneToOneDescriptor(ForwardManyToOneDescriptor):
    pass


class ReverseOneToOneDescriptor(object):
    __vp_open__ = 'django.db.models.fields.related_descriptors'
    __vp_absent__ = ('field', 'rel')

    def __init__(self, related):
        self.related = related

    @property
    def RelatedObjectDoesNotExist(self):
        return type('RelatedObjectDoesNotExist', (self.related.related_model.DoesNotExist, AttributeError), {})

    def __get__(self, instance, cls=None):
        if instance is None:
            return self
        try:
            rel_obj = self.related.get_cached_value(instance)
        except KeyError:
            related_pk = instance._get_pk_val()
            if related_pk is None:
                rel_obj = None
            else:
                try:
                    rel_obj = self.related.related_model._base_manager.all().get(**{self.related.field.attname: related_pk})
                except self.related.related_model.DoesNotExist:
                    rel_obj = None
                else:
                    self.related.field.set_cached_value(rel_obj, instance)
            self.related.set_cached_value(instance, rel_obj)
        if rel_obj is None:
            raise self.RelatedObjectDoesNotExist("%s has no %s." % (instance.__class__.__name__, self.related.get_accessor_name()))
        return rel_obj

    def __set__(self, instance, value):
        __vp__.unsupported('assignment to a reverse one-to-one relation')


class ReverseManyToOneDescriptor(object):
    __vp_open__ = 'django.db.models.fields.related_descriptors'
    __vp_absent__ = ('related',)

    def __init__(self, rel):
        self.rel = rel
        self.field = rel.field

    def vp_super(self):
        return self.rel.related_model._default_manager.__class__

    @property
    def related_manager_cls(self):
        return create_reverse_many_to_one_manager(self.vp_super(), self.rel)

    def __get__(self, instance, cls=None):
        if instance is None:
            return self
        return self.related_manager_cls(instance)

    def __set__(self, instance, value):
        raise TypeError('Direct assignment to the reverse side of a related set is prohibited. Use %s.set() instead.' % self.rel.get_accessor_name())


def create_reverse_many_to_one_manager(superclass, rel):
    class RelatedManager(superclass):
        def __init__(self, instance):
            super().__init__()
            self.instance = instance
            self.model = rel.related_model
            self.field = rel.field
            self.core_filters = {self.field.name: instance}

        def get_queryset(self):
            qs = super().get_queryset()
            qs._hints = {'instance': self.instance}
            return qs.filter(**{self.field.attname: getattr(self.instance, self.field.target_field.attname)})

        def add(self, *objs, **kw):
            __vp__.note('db', 'fk_add', self.model._meta.label, self.field.name, self.instance.pk, objs)

        def remove(self, *objs, **kw):
            __vp__.note('db', 'fk_remove', self.model._meta.label, self.field.name, self.instance.pk, objs)

        def clear(self, **kw):
            __vp__.note('db', 'fk_clear', self.model._meta.label, self.field.name, self.instance.pk)

        def set(self, objs, **kw):
            __vp__.note('db', 'fk_set', self.model._meta.label, self.field.name, self.instance.pk, objs)
    return RelatedManager


class ManyToManyDescriptor(ReverseManyToOneDescriptor):
    def __init__(self, rel, reverse=False):
        super().__init__(rel)
        self.reverse = reverse

    @property
    def through(self):
        return self.rel.through

    @property
    def related_manager_cls(self):
        related_model = self.rel.related_model if self.reverse else self.rel.model
        return create_forward_many_to_many_manager(related_model._default_manager.__class__, self.rel, self.reverse)


def create_forward_many_to_many_manager(superclass, rel, reverse):
    class ManyRelatedManager(superclass):
        def __init__(self, instance=None):
            super().__init__()
            self.instance = instance
            if reverse:
                self.model = rel.related_model
            else:
                self.model = rel.model
            self.through = rel.through
            self.reverse = reverse
            self.field = rel.field
            if getattr(instance, 'pk', None) is None:
                raise ValueError('needs to have a value for field "id" before this many-to-many relationship can be used.')

        def get_queryset(self):
            qs = super().get_queryset()
            qs._hints = {'instance': self.instance}
            return qs.filter(**{'m2m:%s:%s' % (self.field.name, self.reverse): self.instance.pk})

        def add(self, *objs):
            __vp__.note('db', 'm2m_add', self.field.name, self.reverse, self.instance.pk, objs, self.instance._state.adding)

        def remove(self, *objs):
            __vp__.note('db', 'm2m_remove', self.field.name, self.reverse, self.instance.pk, objs, self.instance._state.adding)

        def clear(self):
            __vp__.note('db', 'm2m_clear', self.field.name, self.reverse, self.instance.pk, (), self.instance._state.adding)

        def set(self, objs, clear=False):
            __vp__.note('db', 'm2m_set', self.field.name, self.reverse, self.instance.pk, objs, self.instance._state.adding)
    return ManyRelatedManager
