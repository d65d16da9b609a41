import __vp__
__vp_open__ = 'sys'
version_info = (3, 12, 3, 'final', 0)
platform = 'linux'
maxsize = 9223372036854775807
argv = ['manage.py']


class _Stream(object):
    def __init__(self, name):
        self.name = name

    def write(self, text):
        __vp__.note('stream.write', self.name, text)

    def flush(self):
        __vp__.note('stream.flush', self.name)

    def fileno(self):
        return {'stdin': 0, 'stdout': 1, 'stderr': 2}[self.name]


stdin = _Stream('stdin')
stdout = _Stream('stdout')
stderr = _Stream('stderr')
__stdout__ = stdout
__stderr__ = stderr


def exit(code=None):
    raise SystemExit(code)


def exc_info():
    return (None, None, None)
