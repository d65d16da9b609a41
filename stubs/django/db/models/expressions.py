import __vp__
__vp_open__ = 'django.db.models.expressions'


class Combinable(object):
    def _combine(self, other, op, rev):
        return CombinedExpression(other, op, self) if rev else CombinedExpression(self, op, other)

    def __add__(self, o):
        return self._combine(o, '+', False)

    def __radd__(self, o):
        return self._combine(o, '+', True)

    def __sub__(self, o):
        return self._combine(o, '-', False)

    def __rsub__(self, o):
        return self._combine(o, '-', True)

    def __mul__(self, o):
        return self._combine(o, '*', False)


class Expression(Combinable):
    __vp_open__ = 'django.db.models.expressions'

    def __init__(self, *args, **kwargs):
        self.vp_args = args
        self.vp_kwargs = kwargs


class CombinedExpression(Expression):
    def __init__(self, lhs, op, rhs):
        self.lhs, self.op, self.rhs = lhs, op, rhs


class F(Combinable):
    def __init__(self, name):
        self.name = name


class Func(Expression):
    pass


class Value(Expression):
    pass


class Case(Expression):
    pass


class When(Expression):
    pass


class Subquery(Expression):
    pass


class Exists(Expression):
    pass


class OuterRef(F):
    pass


class ExpressionWrapper(Expression):
    pass


class Col(Expression):
    def __init__(self, alias, target):
        self.alias, self.target = alias, target
