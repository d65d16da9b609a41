import __vp__

contextmanager = __vp__.contextmanager


class closing(object):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc):
        self.thing.close()


class suppress(object):
    def __init__(self, *excs):
        self.excs = excs

    def __enter__(self):
        return None

    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.excs)


class nullcontext(object):
    def __init__(self, x=None):
        self.x = x

    def __enter__(self):
        return self.x

    def __exit__(self, *exc):
        return None


class ExitStack(object):
    def __init__(self):
        __vp__.unsupported('contextlib.ExitStack')
