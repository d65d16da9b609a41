from django.db import router
from django.db.models.query import QuerySet
__vp_open__ = 'django.db.models.manager'

FORWARD = ('filter', 'exclude', 'order_by', 'distinct', 'values', 'values_list', 'annotate', 'select_related',
           'prefetch_related', 'only', 'defer', 'get', 'create', 'get_or_create', 'update_or_create', 'bulk_create',
           'update', 'count', 'exists', 'first', 'last', 'aggregate', 'iterator', 'none', 'extra', 'in_bulk',
           'select_for_update', 'using', 'reverse', 'complex_filter', 'latest', 'earliest', 'dates', 'datetimes',
           'raw', 'union', '_insert', '_update')


def _forward(name):
    def method(self, *args, **kwargs):
        return getattr(self.get_queryset(), name)(*args, **kwargs)
    return method


class BaseManager(object):
    __vp_open__ = 'django.db.models.manager'
    creation_counter = 0
    auto_created = False
    use_in_migrations = False
    _queryset_class = QuerySet

    def __init__(self):
        self._set_creation_counter()
        self.model = None
        self.name = None
        self._db = None
        self._hints = {}

    def _set_creation_counter(self):
        self.creation_counter = BaseManager.creation_counter
        BaseManager.creation_counter += 1

    @classmethod
    def from_queryset(cls, queryset_class, class_name=None):
        return type(class_name or 'FromQueryset', (cls,), {'_queryset_class': queryset_class})

    def contribute_to_class(self, model, name):
        if not self.name:
            self.name = name
        self.model = model
        setattr(model, name, ManagerDescriptor(self))
        model._meta.add_manager(self)

    def db_manager(self, using=None, hints=None):
        import copy
        obj = copy.copy(self)
        obj._db = using or self._db
        obj._hints = hints or self._hints
        return obj

    @property
    def db(self):
        return self._db or router.db_for_read(self.model, **self._hints)

    def get_queryset(self):
        return self._queryset_class(model=self.model, using=self._db, hints=self._hints)

    def all(self):
        return self.get_queryset()

    def __eq__(self, other):
        return isinstance(other, self.__class__) and self.model is other.model and self.name == other.name

    def __hash__(self):
        return id(self)


for _n in FORWARD:
    setattr(BaseManager, _n, _forward(_n))


class Manager(BaseManager):
    pass


class ManagerDescriptor(object):
    def __init__(self, manager):
        self.manager = manager

    def __get__(self, instance, cls=None):
        if instance is not None:
            raise AttributeError("Manager isn't accessible via %s instances" % cls.__name__)
        if cls._meta.abstract:
            raise AttributeError("Manager isn't available; %s is abstract" % cls._meta.object_name)
        if cls._meta.swapped:
            raise AttributeError("Manager isn't available; '%s' has been swapped for '%s'" % (cls._meta.label, cls._meta.swapped))
        return cls._meta.managers_map[self.manager.name]


class EmptyManager(Manager):
    pass
