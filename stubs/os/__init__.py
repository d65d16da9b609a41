import __vp__
from . import path
__vp_open__ = 'os'
__vp_absent__ = ('errno', 'getcwdu')
name = 'posix'
sep = '/'
linesep = '\n'
pathsep = ':'
devnull = '/dev/null'
O_RDONLY = 0
O_WRONLY = 1
O_RDWR = 2
O_CREAT = 64
O_EXCL = 128
O_TRUNC = 512
environ = {}
error = OSError


def _call(fn, args, may_fail=True, result=None):
    if may_fail and __vp__.config('os_faults', False):
        if __vp__.atom('os.' + fn + '.fails'):
            __vp__.note('os.' + fn + '!', *args)
            e = OSError(__vp__.fresh('errno', 'int'), __vp__.fresh('strerror', 'str'))
            raise e
    __vp__.note('os.' + fn, *args)
    return result


def fork():
    if __vp__.config('os_faults', False):
        if __vp__.atom('os.fork.fails'):
            __vp__.note('os.fork!')
            raise OSError(__vp__.fresh('errno', 'int'), __vp__.fresh('strerror', 'str'))
    pid = __vp__.fresh('fork', 'int')
    __vp__.note('os.fork', pid)
    return pid


def _exit(code):
    __vp__.note('os._exit', code)
    raise __vp_exit__(code)


class __vp_exit__(BaseException):
    pass


def setsid():
    return _call('setsid', ())


def umask(mask):
    return _call('umask', (mask,), False, __vp__.fresh('umask', 'int'))


def chdir(p):
    return _call('chdir', (p,))


def getpid():
    return __vp__.sym('pid', 'int')


def getppid():
    return __vp__.sym('ppid', 'int')


def kill(pid, sig):
    state = __vp__.config('pid_state', None)
    if state is not None:
        if state == 'foreign':
            __vp__.note('os.kill!', pid, sig)
            raise PermissionError(1, 'Operation not permitted')
        if state == 'dead':
            __vp__.note('os.kill!', pid, sig)
            raise ProcessLookupError(3, 'No such process')
        __vp__.note('os.kill', pid, sig)
        return None
    if __vp__.atom('os.kill.fails'):
        __vp__.note('os.kill!', pid, sig)
        raise OSError(__vp__.sym('kill.errno', 'int'), __vp__.sym('kill.strerror', 'str'))
    __vp__.note('os.kill', pid, sig)


def open(p, flags, mode=511):
    _call('open', (p, flags))
    return __vp__.fresh('fd', 'int')


def close(fd):
    return _call('close', (fd,))


def dup2(a, b):
    return _call('dup2', (a, b))


def dup(a):
    _call('dup', (a,))
    return __vp__.fresh('fd', 'int')


def isatty(fd):
    return __vp__.atom('isatty', (fd,))


def ttyname(fd):
    if __vp__.atom('istty', (fd,)):
        return '/dev/tty'
    raise OSError(25, 'Inappropriate ioctl for device')


def write(fd, data):
    return _call('write', (fd, data))


def unlink(p):
    return _call('unlink', (p,))


remove = unlink


def getcwd():
    return __vp__.sym('cwd', 'str')


def getenv(k, default=None):
    return __vp__.sym('env.%s' % k)


def fdopen(fd, mode='r', buffering=-1):
    return __vp__.file(__vp__.term('fdpath', fd), mode)


class PathLike(object):
    pass
