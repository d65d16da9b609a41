import __vp__
__vp_open__ = 'resource'
RLIMIT_NOFILE = 7
RLIM_INFINITY = -1


def getrlimit(what):
    return (__vp__.sym('rlimit.soft', 'int'), __vp__.sym('rlimit.hard', 'int'))
