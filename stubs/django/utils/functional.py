__vp_open__ = 'django.utils.functional'


class cached_property(object):
    def __init__(self, func, name=None):
        self.func = func
        self.name = name or func.__name__

    def __get__(self, instance, cls=None):
        if instance is None:
            return self
        res = self.func(instance)
        setattr(instance, self.name, res)
        return res


def lazy(func, *resultclasses):
    return func
