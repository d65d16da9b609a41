import __vp__
__vp_open__ = 'threading'


class local(object):
    pass


class Lock(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def acquire(self, *a, **k):
        return True

    def release(self):
        return None


RLock = Lock
