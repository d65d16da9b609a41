import __vp__
__vp_open__ = 'django.db.models.query_utils'


class Q(object):
    __vp_open__ = 'django.db.models.query_utils'
    AND = 'AND'
    OR = 'OR'

    def __init__(self, *args, **kwargs):
        connector = kwargs.pop('_connector', None)
        negated = kwargs.pop('_negated', False)
        self.children = list(args) + sorted(kwargs.items())
        self.connector = connector or 'AND'
        self.negated = negated

    def _combine(self, other, conn):
        if not isinstance(other, Q):
            raise TypeError(other)
        if not other.children:
            return Q(self, _connector='AND') if self.children else Q()
        if not self.children:
            return Q(other, _connector='AND')
        return Q(self, other, _connector=conn)

    def __or__(self, other):
        return self._combine(other, self.OR)

    def __and__(self, other):
        return self._combine(other, self.AND)

    def __invert__(self):
        return Q(self, _negated=True)

    def __bool__(self):
        return bool(self.children)

    def vp_freeze(self):
        out = []
        for c in self.children:
            if isinstance(c, Q):
                out.append(c.vp_freeze())
            else:
                out.append(c)
        return ('Q', self.connector, self.negated, tuple(out))


class DeferredAttribute(object):
    def __init__(self, field_name, model=None):
        self.field_name = field_name

    def __get__(self, instance, cls=None):
        if instance is None:
            return self
        v = __vp__.event('db', 'deferred', instance.__class__._meta.label, self.field_name)
        setattr(instance, self.field_name, v)
        return v


class PathInfo(object):
    pass


class InvalidQuery(Exception):
    pass
