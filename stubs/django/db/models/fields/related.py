from functools import partial
import __vp__
from django.apps import apps
from django.db.models import Q
from django.db.models.deletion import CASCADE, SET_DEFAULT, SET_NULL
from django.db.models.query_utils import PathInfo
from django.db.models.utils import make_model_tuple
from django.db.models.fields import Field, FieldDoesNotExist
from django.db.models.fields.mixins import FieldCacheMixin
from django.db.models.fields.related_descriptors import (
    ForwardManyToOneDescriptor, ForwardOneToOneDescriptor, ManyToManyDescriptor, ReverseManyToOneDescriptor,
    ReverseOneToOneDescriptor,
)
from django.db.models.fields.reverse_related import ForeignObjectRel, ManyToManyRel, ManyToOneRel, OneToOneRel
__vp_open__ = 'django.db.models.fields.related'
__vp_absent__ = ('add_lazy_relation',)

RECURSIVE_RELATIONSHIP_CONSTANT = 'self'


def resolve_relation(scope_model, relation):
    if relation == RECURSIVE_RELATIONSHIP_CONSTANT:
        relation = scope_model
    if isinstance(relation, str):
        if "." not in relation:
            relation = "%s.%s" % (scope_model._meta.app_label, relation)
    return relation


def lazy_related_operation(function, model, *related_models, **kwargs):
    models = [model] + [resolve_relation(model, rel) for rel in related_models]
    model_keys = [make_model_tuple(m) for m in models]
    apps = model._meta.apps
    return apps.lazy_model_operation(partial(function, **kwargs), *model_keys)


class RelatedField(FieldCacheMixin, Field):
    one_to_many = False
    one_to_one = False
    many_to_many = False
    many_to_one = False

    @property
    def related_model(self):
        apps.check_models_ready()
        return self.remote_field.model

    def db_type(self, connection):
        return None

    def contribute_to_class(self, cls, name, private_only=False, **kwargs):
        super().contribute_to_class(cls, name, private_only=private_only, **kwargs)
        self.opts = cls._meta
        if not cls._meta.abstract:
            if self.remote_field.related_name:
                related_name = self.remote_field.related_name
            else:
                related_name = self.opts.default_related_name
            if related_name:
                related_name = related_name % {
                    'class': cls.__name__.lower(),
                    'model_name': cls._meta.model_name.lower(),
                    'app_label': cls._meta.app_label.lower()
                }
                self.remote_field.related_name = related_name

            def resolve_related_class(model, related, field):
                field.remote_field.model = related
                field.do_related_class(related, model)
            lazy_related_operation(resolve_related_class, cls, self.remote_field.model, field=self)

    def deconstruct(self):
        name, path, args, kwargs = super().deconstruct()
        if self.remote_field.limit_choices_to:
            kwargs['limit_choices_to'] = self.remote_field.limit_choices_to
        if self.remote_field.related_name is not None:
            kwargs['related_name'] = self.remote_field.related_name
        if self.remote_field.related_query_name is not None:
            kwargs['related_query_name'] = self.remote_field.related_query_name
        return name, path, args, kwargs

    @property
    def swappable_setting(self):
        return None

    def set_attributes_from_rel(self):
        self.name = self.name or (self.remote_field.model._meta.model_name + '_' + self.remote_field.model._meta.pk.name)
        if self.verbose_name is None:
            self.verbose_name = self.remote_field.model._meta.verbose_name
        self.remote_field.set_field_name()

    def do_related_class(self, other, cls):
        self.set_attributes_from_rel()
        self.contribute_to_related_class(other, self.remote_field)

    def related_query_name(self):
        return self.remote_field.related_query_name or self.remote_field.related_name or self.opts.model_name


class ForeignObject(RelatedField):
    many_to_many = False
    many_to_one = True
    one_to_many = False
    one_to_one = False
    requires_unique_target = True
    related_accessor_class = ReverseManyToOneDescriptor
    forward_related_accessor_class = ForwardManyToOneDescriptor
    rel_class = ForeignObjectRel

    def __init__(self, to, on_delete, from_fields, to_fields, rel=None, related_name=None,
                 related_query_name=None, limit_choices_to=None, parent_link=False,
                 swappable=True, **kwargs):
        if rel is None:
            rel = self.rel_class(
                self, to, related_name=related_name, related_query_name=related_query_name,
                limit_choices_to=limit_choices_to, parent_link=parent_link, on_delete=on_delete,
            )
        super().__init__(rel=rel, **kwargs)
        self.from_fields = from_fields
        self.to_fields = to_fields
        self.swappable = swappable

    def deconstruct(self):
        name, path, args, kwargs = super().deconstruct()
        kwargs['on_delete'] = self.remote_field.on_delete
        kwargs['from_fields'] = self.from_fields
        kwargs['to_fields'] = self.to_fields
        if self.remote_field.parent_link:
            kwargs['parent_link'] = self.remote_field.parent_link
        if isinstance(self.remote_field.model, str):
            kwargs['to'] = self.remote_field.model
        else:
            kwargs['to'] = "%s.%s" % (self.remote_field.model._meta.app_label, self.remote_field.model._meta.object_name)
        return name, path, args, kwargs

    @property
    def related_fields(self):
        return self.resolve_related_fields()

    def resolve_related_fields(self):
        if isinstance(self.remote_field.model, str):
            raise ValueError('Related model %r cannot be resolved' % self.remote_field.model)
        out = []
        for from_name, to_name in zip(self.from_fields, self.to_fields):
            from_field = self if from_name == 'self' else self.opts.get_field(from_name)
            to_field = self.remote_field.model._meta.pk if to_name is None else self.remote_field.model._meta.get_field(to_name)
            out.append((from_field, to_field))
        return out

    @property
    def local_related_fields(self):
        return tuple(lhs for lhs, rhs in self.related_fields)

    @property
    def foreign_related_fields(self):
        return tuple(rhs for lhs, rhs in self.related_fields)

    def get_attname_column(self):
        attname, column = super().get_attname_column()
        return attname, None

    def contribute_to_class(self, cls, name, private_only=False, **kwargs):
        super().contribute_to_class(cls, name, private_only=private_only, **kwargs)
        setattr(cls, self.name, self.forward_related_accessor_class(self))

    def contribute_to_related_class(self, cls, related):
        if not self.remote_field.is_hidden() and not related.related_model._meta.swapped:
            setattr(cls._meta.concrete_model, related.get_accessor_name(), self.related_accessor_class(related))


class ForeignKey(ForeignObject):
    many_to_many = False
    many_to_one = True
    one_to_many = False
    one_to_one = False
    rel_class = ManyToOneRel
    empty_strings_allowed = False

    def __init__(self, to, on_delete, related_name=None, related_query_name=None,
                 limit_choices_to=None, parent_link=False, to_field=None,
                 db_constraint=True, **kwargs):
        if isinstance(to, str):
            pass
        else:
            to_field = to_field or (to._meta.pk and to._meta.pk.name)
        kwargs['rel'] = self.rel_class(
            self, to, to_field, related_name=related_name, related_query_name=related_query_name,
            limit_choices_to=limit_choices_to, parent_link=parent_link, on_delete=on_delete,
        )
        kwargs['db_index'] = kwargs.get('db_index', True)
        super().__init__(to, on_delete, from_fields=['self'], to_fields=[to_field], **kwargs)
        self.db_constraint = db_constraint

    def deconstruct(self):
        name, path, args, kwargs = super().deconstruct()
        del kwargs['to_fields']
        del kwargs['from_fields']
        if self.db_index:
            del kwargs['db_index']
        else:
            kwargs['db_index'] = False
        if self.db_constraint is not True:
            kwargs['db_constraint'] = self.db_constraint
        to_meta = getattr(self.remote_field.model, "_meta", None)
        if self.remote_field.field_name and (
                not to_meta or (to_meta.pk and self.remote_field.field_name != to_meta.pk.name)):
            kwargs['to_field'] = self.remote_field.field_name
        return name, path, args, kwargs

    @property
    def target_field(self):
        return self.foreign_related_fields[0]

    def get_attname(self):
        return '%s_id' % self.name

    def get_attname_column(self):
        attname = self.get_attname()
        return attname, self.vp_column(attname)

    def get_default(self):
        field_default = super().get_default()
        if isinstance(field_default, self.remote_field.model):
            return getattr(field_default, self.target_field.attname)
        return field_default

    def contribute_to_related_class(self, cls, related):
        super().contribute_to_related_class(cls, related)
        if self.remote_field.field_name is None:
            self.remote_field.field_name = cls._meta.pk.name

    def db_type(self, connection):
        return self.target_field.rel_db_type(connection=connection)

    def db_parameters(self, connection):
        return {"type": self.db_type(connection), "check": []}


class OneToOneField(ForeignKey):
    many_to_many = False
    many_to_one = False
    one_to_many = False
    one_to_one = True
    related_accessor_class = ReverseOneToOneDescriptor
    forward_related_accessor_class = ForwardOneToOneDescriptor
    rel_class = OneToOneRel

    def __init__(self, to, on_delete, to_field=None, **kwargs):
        kwargs['unique'] = True
        super().__init__(to, on_delete, to_field=to_field, **kwargs)

    def deconstruct(self):
        name, path, args, kwargs = super().deconstruct()
        if "unique" in kwargs:
            del kwargs['unique']
        return name, path, args, kwargs


def create_many_to_many_intermediary_model(field, klass):
    from django.db import models

    def set_managed(model, related, through):
        through._meta.managed = model._meta.managed or related._meta.managed

    to_model = resolve_relation(klass, field.remote_field.model)
    name = '%s_%s' % (klass._meta.object_name, field.name)
    lazy_related_operation(set_managed, klass, to_model, name)
    to = make_model_tuple(to_model)[1]
    from_ = klass._meta.model_name
    if to == from_:
        to = 'to_%s' % to
        from_ = 'from_%s' % from_
    meta = type('Meta', (), {
        'db_table': field._get_m2m_db_table(klass._meta),
        'auto_created': klass,
        'app_label': klass._meta.app_label,
        'unique_together': (from_, to),
        'apps': field.model._meta.apps,
    })
    return type(models.Model)(name, (models.Model,), {
        'Meta': meta,
        '__module__': klass.__module__,
        from_: models.ForeignKey(klass, related_name='%s+' % name,
                                 db_constraint=field.remote_field.db_constraint, on_delete=CASCADE),
        to: models.ForeignKey(to_model, related_name='%s+' % name,
                              db_constraint=field.remote_field.db_constraint, on_delete=CASCADE),
    })


class ManyToManyField(RelatedField):
    many_to_many = True
    many_to_one = False
    one_to_many = False
    one_to_one = False
    rel_class = ManyToManyRel

    def __init__(self, to, related_name=None, related_query_name=None,
                 limit_choices_to=None, symmetrical=None, through=None,
                 through_fields=None, db_constraint=True, db_table=None,
                 swappable=True, **kwargs):
        if symmetrical is None:
            symmetrical = (to == RECURSIVE_RELATIONSHIP_CONSTANT)
        kwargs['rel'] = self.rel_class(
            self, to, related_name=related_name, related_query_name=related_query_name,
            limit_choices_to=limit_choices_to, symmetrical=symmetrical, through=through,
            through_fields=through_fields, db_constraint=db_constraint,
        )
        self.has_null_arg = 'null' in kwargs
        super().__init__(**kwargs)
        self.db_table = db_table
        self.swappable = swappable

    def deconstruct(self):
        name, path, args, kwargs = super().deconstruct()
        if self.db_table is not None:
            kwargs['db_table'] = self.db_table
        if self.remote_field.db_constraint is not True:
            kwargs['db_constraint'] = self.remote_field.db_constraint
        if isinstance(self.remote_field.model, str):
            kwargs['to'] = self.remote_field.model
        else:
            kwargs['to'] = "%s.%s" % (self.remote_field.model._meta.app_label, self.remote_field.model._meta.object_name)
        if getattr(self.remote_field, 'through', None) is not None:
            if isinstance(self.remote_field.through, str):
                kwargs['through'] = self.remote_field.through
            elif not self.remote_field.through._meta.auto_created:
                kwargs['through'] = "%s.%s" % (
                    self.remote_field.through._meta.app_label, self.remote_field.through._meta.object_name)
        return name, path, args, kwargs

    def get_attname_column(self):
        return self.get_attname(), None

    def _get_m2m_db_table(self, opts):
        if self.remote_field.through is not None:
            return self.remote_field.through._meta.db_table
        elif self.db_table:
            return self.db_table
        else:
            return __vp__.term('tbl', '%s_%s' % (opts.label, self.name))

    def _get_m2m_attr(self, related, attr):
        if self.remote_field.through_fields is not None:
            link_field_name = self.remote_field.through_fields[0]
        else:
            link_field_name = None
        for f in self.remote_field.through._meta.fields:
            if (f.is_relation and f.remote_field.model == related.related_model and
                    (link_field_name is None or link_field_name == f.name)):
                return getattr(f, attr)

    def _get_m2m_reverse_attr(self, related, attr):
        found = False
        if self.remote_field.through_fields is not None:
            link_field_name = self.remote_field.through_fields[1]
        else:
            link_field_name = None
        for f in self.remote_field.through._meta.fields:
            if f.is_relation and f.remote_field.model == related.model:
                if link_field_name is None and related.related_model == related.model:
                    if found:
                        return getattr(f, attr)
                    else:
                        found = True
                elif link_field_name is None or link_field_name == f.name:
                    return getattr(f, attr)
        raise AttributeError('_m2m_reverse_%s_cache' % attr)

    def contribute_to_class(self, cls, name, **kwargs):
        if self.remote_field.symmetrical and (
                self.remote_field.model == "self" or self.remote_field.model == cls._meta.object_name):
            self.remote_field.related_name = "%s_rel_+" % name
        elif self.remote_field.is_hidden():
            self.remote_field.related_name = "_%s_%s_+" % (cls.__name__.lower(), name)
        super().contribute_to_class(cls, name, **kwargs)
        if not cls._meta.abstract:
            if self.remote_field.through:
                def resolve_through_model(_, model, field):
                    field.remote_field.through = model
                lazy_related_operation(resolve_through_model, cls, self.remote_field.through, field=self)
            elif not cls._meta.swapped:
                self.remote_field.through = create_many_to_many_intermediary_model(self, cls)
        setattr(cls, self.name, ManyToManyDescriptor(self.remote_field, reverse=False))
        self.m2m_db_table = partial(self._get_m2m_db_table, cls._meta)

    def contribute_to_related_class(self, cls, related):
        if not self.remote_field.is_hidden() and not related.related_model._meta.swapped:
            setattr(cls, related.get_accessor_name(), ManyToManyDescriptor(self.remote_field, reverse=True))
        self.m2m_column_name = partial(self._get_m2m_attr, related, 'column')
        self.m2m_reverse_name = partial(self._get_m2m_reverse_attr, related, 'column')
        self.m2m_field_name = partial(self._get_m2m_attr, related, 'name')
        self.m2m_reverse_field_name = partial(self._get_m2m_reverse_attr, related, 'name')

    def set_attributes_from_rel(self):
        pass

    def db_type(self, connection):
        return None

    def db_parameters(self, connection):
        return {"type": None, "check": None}
