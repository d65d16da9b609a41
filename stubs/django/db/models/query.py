import __vp__
from django.db import connections, router
__vp_open__ = 'django.db.models.query'

REPR_OUTPUT_SIZE = 20


def _fz(v):
    from django.db.models.query_utils import Q
    if __vp__.isterm(v):
        return v
    if isinstance(v, Q):
        return v.vp_freeze()
    if hasattr(v, '_meta') and not isinstance(v, type):
        return v.pk
    return v


def vp_has(res, k):
    if isinstance(k, int) and not __vp__.isterm(k) and k == 0:
        return __vp__.atom('nonempty', res)
    return __vp__.atom('hasrow', res, k)


class QuerySet(object):
    """Records the operations applied to it; every database access is an event with an unknown result."""
    __vp_open__ = 'django.db.models.query'

    def __init__(self, model=None, query=None, using=None, hints=None):
        self.model = model
        self._db = using
        self._hints = hints or {}
        self.vp_ops = ()
        self.vp_res = None
        self.vp_fetched = False
        self.vp_mode = None
        self._for_write = False

    @property
    def db(self):
        if self._for_write:
            return self._db or router.db_for_write(self.model, **self._hints)
        return self._db or router.db_for_read(self.model, **self._hints)

    @property
    def query(self):
        __vp__.unsupported('QuerySet.query')

    @property
    def ordered(self):
        return __vp__.atom('qs.ordered')

    def _clone(self):
        c = self.__class__(model=self.model, using=self._db, hints=self._hints)
        c.vp_ops = self.vp_ops
        c.vp_mode = self.vp_mode
        c._for_write = self._for_write
        return c

    def _chain(self, *op):
        c = self._clone()
        if op:
            c.vp_ops = c.vp_ops + (op,)
        return c

    def vp_filters(self, args, kwargs):
        return tuple([_fz(a) for a in args]) + tuple([(k, _fz(v)) for k, v in sorted(kwargs.items())])

    def all(self):
        return self._chain()

    def filter(self, *args, **kwargs):
        return self._chain('filter', self.vp_filters(args, kwargs))

    def exclude(self, *args, **kwargs):
        return self._chain('exclude', self.vp_filters(args, kwargs))

    def complex_filter(self, f):
        if isinstance(f, dict):
            return self.filter(**f)
        return self.filter(f)

    def order_by(self, *names):
        return self._chain('order_by', names)

    def reverse(self):
        return self._chain('reverse')

    def distinct(self, *names):
        return self._chain('distinct', names)

    def none(self):
        return self._chain('none')

    def extra(self, *args, **kwargs):
        return self._chain('extra', args, tuple(sorted(kwargs.items())))

    def annotate(self, *args, **kwargs):
        return self._chain('annotate', args, tuple(sorted(kwargs.items())))

    def select_related(self, *names):
        return self._chain()

    def prefetch_related(self, *names):
        return self._chain()

    def only(self, *names):
        return self._chain('only', names)

    def defer(self, *names):
        return self._chain('defer', names)

    def select_for_update(self, **kw):
        return self._chain('select_for_update')

    def using(self, alias):
        c = self._chain()
        c._db = alias
        return c

    def values(self, *names, **kw):
        c = self._chain('values', names)
        c.vp_mode = ('values', names)
        return c

    def values_list(self, *names, flat=False, named=False):
        if flat and len(names) > 1:
            raise TypeError("'flat' is not valid when values_list is called with more than one field.")
        c = self._chain('values', names)
        c.vp_mode = ('flat', names) if flat else ('values_list', names)
        return c

    def __or__(self, other):
        __vp__.unsupported('QuerySet |')

    # -- database access

    def vp_access(self, kind, *args):
        for op in self.vp_ops:
            if op[0] == 'distinct' and op[1] and not connections[self.db].features.can_distinct_on_fields:
                raise NotImplementedError('DISTINCT ON fields is not supported by this database backend')
        __vp__.interrupt(kind)
        __vp__.db_fault(kind)
        return __vp__.event('db', kind, self.model._meta.label, self.db, self.vp_ops, *args)

    def _fetch_all(self):
        if not self.vp_fetched:
            self.vp_res = self.vp_access('fetch')
            self.vp_fetched = True
        return self.vp_res

    def vp_make(self, e):
        m = self.vp_mode
        if m is None:
            return self.model.vp_from_row(e, self.db)
        names = m[1] or tuple([f.attname for f in self.model._meta.concrete_fields])
        if m[0] == 'flat':
            return self.model.vp_value(e, names[0])
        if m[0] == 'values':
            return {n: self.model.vp_value(e, n) for n in names}
        return tuple([self.model.vp_value(e, n) for n in names])

    def vp_iter(self, res):
        for e in __vp__.iter_rows(res):
            yield self.vp_make(e)

    def __iter__(self):
        return self.vp_iter(self._fetch_all())

    def iterator(self, chunk_size=2000):
        return self.vp_iter(self.vp_access('iterator'))

    def __bool__(self):
        return __vp__.atom('nonempty', self._fetch_all())

    def __len__(self):
        return __vp__.term('len', self._fetch_all())

    def __repr__(self):
        self.vp_access('repr')
        return __vp__.fresh('repr', 'str')

    def __getitem__(self, k):
        if isinstance(k, tuple) and k[0] == 'slice':
            if self.vp_fetched:
                __vp__.unsupported('slice of a fetched query set')
            return self._chain('slice', k[1:])
        if self.vp_fetched:
            res = self.vp_res
        else:
            res = self.vp_access('getitem', k)
        if vp_has(res, k):
            return self.vp_make(__vp__.term('elem', res, k))
        raise IndexError('list index out of range')

    def count(self):
        if self.vp_fetched:
            return __vp__.term('len', self.vp_res)
        return __vp__.term('int', 'count', self.vp_access('count'))

    def exists(self):
        if self.vp_fetched:
            return __vp__.atom('nonempty', self.vp_res)
        return __vp__.atom('nonempty', self.vp_access('exists'))

    def get(self, *args, **kwargs):
        q = self.filter(*args, **kwargs) if args or kwargs else self
        res = q.vp_access('get')
        if vp_has(res, 0):
            return q.vp_make(__vp__.term('elem', res, 0))
        raise self.model.DoesNotExist('%s matching query does not exist.' % self.model._meta.object_name)

    def _one(self, kind):
        res = self.vp_access(kind)
        if vp_has(res, 0):
            return self.vp_make(__vp__.term('elem', res, 0))
        return None

    def first(self):
        return self._one('first')

    def last(self):
        return self._one('last')

    def create(self, **kwargs):
        obj = self.model(**kwargs)
        self._for_write = True
        obj.save(force_insert=True, using=self.db)
        return obj

    def get_or_create(self, defaults=None, **kwargs):
        try:
            return self.get(**kwargs), False
        except self.model.DoesNotExist:
            d = dict(kwargs)
            d.update(defaults or {})
            return self.create(**d), True

    def update_or_create(self, defaults=None, **kwargs):
        defaults = defaults or {}
        try:
            obj = self.get(**kwargs)
        except self.model.DoesNotExist:
            d = dict(kwargs)
            d.update(defaults)
            return self.create(**d), True
        for k, v in defaults.items():
            setattr(obj, k, v)
        obj.save(using=self.db)
        return obj, False

    def bulk_create(self, objs, batch_size=None):
        self._for_write = True
        objs = list(objs)
        self.vp_access('bulk_create')
        for o in objs:
            self._insert([o], fields=[f for f in self.model._meta.local_concrete_fields if f is not self.model._meta.auto_field])
        return objs

    def update(self, **kwargs):
        self._for_write = True
        res = self.vp_access('update', tuple(sorted(kwargs.items())))
        return __vp__.term('int', 'updated', res)

    def delete(self):
        self._for_write = True
        res = self.vp_access('delete')
        return (__vp__.term('int', 'deleted', res), {})

    def _raw_delete(self, using):
        return self.vp_access('delete')

    def aggregate(self, *args, **kwargs):
        out = {}
        for a in args:
            out[a.default_alias] = __vp__.term('agg', self.vp_access('aggregate', a.default_alias))
        for k, a in kwargs.items():
            out[k] = __vp__.term('agg', self.vp_access('aggregate', k))
        return out

    def _update(self, values):
        self._for_write = True
        res = self.vp_access('row_update', tuple([(f.name, v) for f, m, v in values]))
        return __vp__.term('int', 'rowcount', res)

    def _insert(self, objs, fields, return_id=False, raw=False, using=None, ignore_conflicts=False):
        self._for_write = True
        if using is None:
            using = self.db
        vals = []
        for o in objs:
            for f in fields:
                v = getattr(o, f.attname) if raw else f.pre_save(o, True)
                vals.append((f.name, v))
        __vp__.db_fault('row_insert')
        res = __vp__.event('db', 'row_insert', self.model._meta.label, using, (), tuple(vals))
        return __vp__.term('int', 'newpk', res)


class Prefetch(object):
    def __init__(self, lookup, queryset=None, to_attr=None):
        self.lookup = lookup


class RawQuerySet(object):
    pass


class EmptyQuerySet(object):
    pass
