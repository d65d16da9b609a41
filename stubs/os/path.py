import __vp__
__vp_open__ = 'posixpath'


def join(*parts):
    return '/'.join(parts)


def exists(p):
    if __vp__.config('pid_state', None) is not None:
        return __vp__.config('pid_state') != 'missing' and p == __vp__.config('pid_path', p)
    return __vp__.atom('path.exists', (p,))


isfile = exists
isdir = exists


def basename(p):
    return __vp__.term('strop', 'basename', p)


def dirname(p):
    return __vp__.term('strop', 'dirname', p)


def abspath(p):
    return __vp__.term('strop', 'abspath', p)


def expanduser(p):
    return __vp__.term('strop', 'expanduser', p)
