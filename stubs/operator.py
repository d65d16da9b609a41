__vp_open__ = 'operator'


def attrgetter(*names):
    def get(obj, name):
        for n in name.split('.'):
            obj = getattr(obj, n)
        return obj
    if len(names) == 1:
        return lambda obj: get(obj, names[0])
    return lambda obj: tuple(get(obj, n) for n in names)


def itemgetter(*keys):
    if len(keys) == 1:
        return lambda obj: obj[keys[0]]
    return lambda obj: tuple(obj[k] for k in keys)


def methodcaller(name, *args, **kwargs):
    return lambda obj: getattr(obj, name)(*args, **kwargs)


def or_(a, b):
    return a | b


def and_(a, b):
    return a & b


def add(a, b):
    return a + b


def eq(a, b):
    return a == b


def ne(a, b):
    return a != b


def not_(a):
    return not a


def contains(a, b):
    return b in a
