import __vp__


def copy(x):
    c = getattr(x, '__copy__', None)
    if c is not None and not isinstance(x, type):
        return c()
    return __vp__.copy(x)


def deepcopy(x, memo=None):
    return __vp__.deepcopy(x)
