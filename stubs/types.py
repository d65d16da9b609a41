__vp_open__ = 'types'


def _f():
    pass


class _C(object):
    def m(self):
        pass


FunctionType = type(_f)
LambdaType = FunctionType
MethodType = type(_C().m)
ModuleType = type(__import__('abc'))


class SimpleNamespace(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)
