__vp_open__ = 'inspect'


def isclass(x):
    return isinstance(x, type)


def isfunction(x):
    return callable(x)
