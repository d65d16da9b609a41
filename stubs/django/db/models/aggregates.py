from django.db.models.expressions import Func
__vp_open__ = 'django.db.models.aggregates'


class Aggregate(Func):
    name = None

    def __init__(self, *expressions, **extra):
        self.expressions = expressions
        self.extra = extra

    @property
    def default_alias(self):
        return '%s__%s' % (self.expressions[0], self.name.lower())


class Avg(Aggregate):
    name = 'Avg'


class Count(Aggregate):
    name = 'Count'


class Max(Aggregate):
    name = 'Max'


class Min(Aggregate):
    name = 'Min'


class StdDev(Aggregate):
    name = 'StdDev'


class Sum(Aggregate):
    name = 'Sum'


class Variance(Aggregate):
    name = 'Variance'
