import copy
from bisect import bisect
from django.apps import apps
from django.conf import settings
from django.core.exceptions import FieldDoesNotExist
from django.db.models.fields import AutoField
import __vp__
__vp_open__ = 'django.db.models.options'

PROXY_PARENTS = '<proxy parents>'
LITERAL_APPS = ('denorm', 'contenttypes', 'auth', 'sites')
DEFAULT_NAMES = (
    'verbose_name', 'verbose_name_plural', 'db_table', 'ordering', 'unique_together', 'permissions',
    'get_latest_by', 'order_with_respect_to', 'app_label', 'db_tablespace', 'abstract', 'managed', 'proxy',
    'swappable', 'auto_created', 'index_together', 'apps', 'default_permissions', 'select_on_save',
    'default_related_name', 'required_db_features', 'required_db_vendor', 'base_manager_name',
    'default_manager_name', 'indexes', 'manager_inheritance_from_future',
)


def insort(lst, field):
    i = 0
    while i < len(lst) and lst[i].creation_counter <= field.creation_counter:
        i += 1
    lst.insert(i, field)


class Options(object):
    __vp_open__ = 'django.db.models.options'
    __vp_absent__ = ('virtual_fields', 'get_fields_with_model', 'get_all_related_objects', 'module_name')

    def __init__(self, meta, app_label=None):
        self.local_fields = []
        self.local_many_to_many = []
        self.private_fields = []
        self.local_managers = []
        self.base_manager_name = None
        self.default_manager_name = None
        self.model_name = None
        self.verbose_name = None
        self.verbose_name_plural = None
        self.db_table = ''
        self.ordering = []
        self.indexes = []
        self.unique_together = []
        self.index_together = []
        self.select_on_save = False
        self.default_permissions = ('add', 'change', 'delete')
        self.permissions = []
        self.object_name = None
        self.app_label = app_label
        self.get_latest_by = None
        self.order_with_respect_to = None
        self.db_tablespace = ''
        self.required_db_features = []
        self.required_db_vendor = None
        self.meta = meta
        self.pk = None
        self.auto_field = None
        self.abstract = False
        self.managed = True
        self.proxy = False
        self.proxy_for_model = None
        self.concrete_model = None
        self.swappable = None
        self.parents = {}
        self.auto_created = False
        self.related_fkey_lookups = []
        self.apps = apps
        self.default_related_name = None
        self.vp_base_manager = None

    @property
    def label(self):
        return '%s.%s' % (self.app_label, self.object_name)

    @property
    def label_lower(self):
        return '%s.%s' % (self.app_label, self.model_name)

    @property
    def installed(self):
        return True

    def contribute_to_class(self, cls, name):
        cls._meta = self
        self.model = cls
        self.object_name = cls.__name__
        self.model_name = self.object_name.lower()
        self.verbose_name = self.model_name
        if self.meta:
            meta_attrs = [n for n in self.meta.__dict__ if not n.startswith('_')]
            for attr_name in DEFAULT_NAMES:
                if attr_name in meta_attrs:
                    setattr(self, attr_name, getattr(self.meta, attr_name))
                elif hasattr(self.meta, attr_name):
                    setattr(self, attr_name, getattr(self.meta, attr_name))
            for n in meta_attrs:
                if n not in DEFAULT_NAMES:
                    raise TypeError("'class Meta' got invalid attribute(s): %s" % n)
        del self.meta
        if not self.db_table:
            if self.app_label in LITERAL_APPS:
                self.db_table = '%s_%s' % (self.app_label, self.model_name)
            else:
                self.db_table = __vp__.term('tbl', self.label)

    def _prepare(self, model):
        if self.pk is None:
            if self.parents:
                field = next(iter(self.parents.values()))
                already_created = [fld for fld in self.local_fields if fld.name == field.name]
                if already_created:
                    field = already_created[0]
                field.primary_key = True
                self.setup_pk(field)
            else:
                auto = AutoField(verbose_name='ID', primary_key=True, auto_created=True)
                model.add_to_class('id', auto)

    def add_manager(self, manager):
        self.local_managers.append(manager)

    def add_field(self, field, private=False):
        if private:
            self.private_fields.append(field)
        elif field.is_relation and field.many_to_many:
            insort(self.local_many_to_many, field)
        else:
            insort(self.local_fields, field)
            self.setup_pk(field)

    def setup_pk(self, field):
        if not self.pk and field.primary_key:
            self.pk = field
            field.serialize = False

    def setup_proxy(self, target):
        self.pk = target._meta.pk
        self.proxy_for_model = target
        self.db_table = target._meta.db_table

    def __repr__(self):
        return '<Options for %s>' % self.object_name

    def __str__(self):
        return '%s.%s' % (self.app_label, self.model_name)

    @property
    def swapped(self):
        if self.swappable:
            swapped_for = getattr(settings, self.swappable, None)
            if swapped_for:
                swapped_label, swapped_object = swapped_for.split('.')
                if '%s.%s' % (swapped_label, swapped_object.lower()) != self.label_lower:
                    return swapped_for
        return None

    @property
    def managers(self):
        managers = []
        seen = []
        bases = [b for b in self.model.mro() if hasattr(b, '_meta')]
        for base in bases:
            for manager in base._meta.local_managers:
                if manager.name in seen:
                    continue
                manager = copy.copy(manager)
                manager.model = self.model
                seen.append(manager.name)
                managers.append(manager)
        return managers

    @property
    def managers_map(self):
        return {manager.name: manager for manager in self.managers}

    @property
    def base_manager(self):
        name = self.base_manager_name
        if name:
            return self.managers_map[name]
        from django.db.models.manager import Manager
        manager = Manager()
        manager.name = '_base_manager'
        manager.model = self.model
        manager.auto_created = True
        return manager

    @property
    def default_manager(self):
        name = self.default_manager_name
        if name:
            return self.managers_map[name]
        if self.managers:
            return self.managers[0]
        return None

    @property
    def fields(self):
        out = []
        for f in self._get_fields(reverse=False):
            if f.is_relation and f.many_to_many:
                continue
            if f.is_relation and f.one_to_many:
                continue
            if f.is_relation and f.many_to_one and not (hasattr(f.remote_field, 'model') and f.remote_field.model):
                continue
            out.append(f)
        return out

    @property
    def concrete_fields(self):
        return [f for f in self.fields if f.concrete]

    @property
    def local_concrete_fields(self):
        return [f for f in self.local_fields if f.concrete]

    @property
    def many_to_many(self):
        return [f for f in self._get_fields(reverse=False) if f.is_relation and f.many_to_many]

    @property
    def related_objects(self):
        return [o for o in self._get_fields(forward=False, reverse=True, include_hidden=True)
                if not o.hidden or o.field.many_to_many]

    def get_field(self, field_name):
        for f in self._get_fields(reverse=False):
            if f.name == field_name or getattr(f, 'attname', None) == field_name:
                return f
        if not self.apps.models_ready:
            raise FieldDoesNotExist("%s has no field named '%s'. The app cache isn't ready yet" % (self.object_name, field_name))
        for f in self._get_fields(forward=False, include_hidden=True):
            if f.name == field_name:
                return f
        raise FieldDoesNotExist("%s has no field named '%s'" % (self.object_name, field_name))

    def get_parent_list(self):
        result = list(self.parents)
        for parent in self.parents:
            for ancestor in parent._meta.get_parent_list():
                if ancestor not in result:
                    result.append(ancestor)
        return result

    def get_base_chain(self, model):
        if not self.parents:
            return []
        if model in self.parents:
            return [model]
        for parent in self.parents:
            res = parent._meta.get_base_chain(model)
            if res:
                res.insert(0, parent)
                return res
        return []

    def get_ancestor_link(self, ancestor):
        if ancestor in self.parents:
            return self.parents[ancestor]
        for parent in self.parents:
            parent_link = parent._meta.get_ancestor_link(ancestor)
            if parent_link:
                return self.parents[parent] or parent_link

    @property
    def _relation_tree(self):
        out = []
        for model in self.apps.get_models(include_auto_created=True):
            if model._meta.abstract:
                continue
            for f in model._meta._get_fields(reverse=False, include_parents=False):
                if f.is_relation and f.related_model is not None and not isinstance(f.remote_field.model, str):
                    if f.remote_field.model._meta.concrete_model is self.concrete_model:
                        out.append(f)
        return out

    def _expire_cache(self, forward=True, reverse=True):
        return None

    def get_fields(self, include_parents=True, include_hidden=False):
        if include_parents is False:
            include_parents = PROXY_PARENTS
        return self._get_fields(include_parents=include_parents, include_hidden=include_hidden)

    def _get_fields(self, forward=True, reverse=True, include_parents=True, include_hidden=False, seen_models=None):
        topmost_call = False
        if seen_models is None:
            seen_models = []
            topmost_call = True
        seen_models.append(self.model)
        fields = []
        if include_parents is not False:
            for parent in self.parents:
                if parent in seen_models:
                    continue
                if parent._meta.concrete_model != self.concrete_model and include_parents == PROXY_PARENTS:
                    continue
                for obj in parent._meta._get_fields(forward=forward, reverse=reverse, include_parents=include_parents,
                                                    include_hidden=include_hidden, seen_models=seen_models):
                    if getattr(obj, 'parent_link', False) and obj.model != self.concrete_model:
                        continue
                    fields.append(obj)
        if reverse and not self.proxy:
            for field in self._relation_tree:
                if include_hidden or not field.remote_field.hidden:
                    fields.append(field.remote_field)
        if forward:
            fields += self.local_fields
            fields += self.local_many_to_many
            if topmost_call:
                fields += self.private_fields
        return fields
