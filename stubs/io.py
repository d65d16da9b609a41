import __vp__
__vp_open__ = 'io'


class _File(object):
    def __init__(self, path, mode):
        self.name = path
        self.mode = mode
        self.closed = False

    def write(self, s):
        __vp__.note('file.write', self.name, s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def read(self, n=None):
        __vp__.note('file.read', self.name)
        state = __vp__.config('pid_state', None) if self.name == __vp__.config('pid_path', self.name) else None
        if state is not None:
            return {'empty': '', 'garbage': 'nonsense'}.get(state, '4711\n')
        return __vp__.fresh('contents', 'str')

    def readline(self):
        if __vp__.config('pid_state', None) is not None:
            return self.read()
        return __vp__.fresh('line', 'str')

    def flush(self):
        return None

    def fileno(self):
        return __vp__.fresh('fileno', 'int')

    def close(self):
        __vp__.note('file.close', self.name)
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def open(path, mode='r', *args, **kwargs):
    __vp__.note('file.open', path, mode)
    if __vp__.config('pid_state', None) is not None and 'r' in mode and (
            __vp__.config('pid_state') == 'missing' or path != __vp__.config('pid_path', path)):
        raise FileNotFoundError(2, 'No such file or directory')
    if __vp__.config('os_faults', False):
        if __vp__.atom('open.fails'):
            __vp__.note('os.file.open!', path)
            e = OSError(__vp__.fresh('errno', 'int'), 'cannot open')
            e.errno = e.args[0]
            e.strerror = 'cannot open'
            raise e
    return _File(path, mode)


class StringIO(object):
    def __init__(self, initial=''):
        self.vp_parts = [initial]

    def write(self, s):
        self.vp_parts.append(s)

    def getvalue(self):
        return ''.join(self.vp_parts)
