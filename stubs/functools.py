import __vp__


def update_wrapper(wrapper, wrapped, assigned=None, updated=None):
    for name in ('__module__', '__name__', '__qualname__', '__doc__'):
        if hasattr(wrapped, name):
            setattr(wrapper, name, getattr(wrapped, name))
    d = getattr(wrapped, '__dict__', None)
    if d is not None:
        for k, v in d.items():
            setattr(wrapper, k, v)
    wrapper.__wrapped__ = wrapped
    return wrapper


def wraps(wrapped, assigned=None, updated=None):
    def deco(wrapper):
        return update_wrapper(wrapper, wrapped)
    return deco


class partial(object):
    def __init__(self, func, *args, **kwargs):
        self.func = func
        self.args = args
        self.keywords = kwargs

    def __call__(self, *args, **kwargs):
        kw = dict(self.keywords)
        kw.update(kwargs)
        return self.func(*(self.args + args), **kw)


def reduce(function, sequence, *initial):
    first = True
    if initial:
        value = initial[0]
        first = False
    else:
        value = None
    for x in sequence:
        if first:
            value = x
            first = False
        else:
            value = function(value, x)
    if first:
        raise TypeError('reduce() of empty sequence with no initial value')
    return value


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return maxsize

    def deco(f):
        return f
    return deco


def total_ordering(cls):
    return cls


class cmp_to_key(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return x
