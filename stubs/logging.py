import __vp__
__vp_open__ = 'logging'
DEBUG, INFO, WARNING, ERROR, CRITICAL = 10, 20, 30, 40, 50


class Logger(object):
    def __init__(self, name=None):
        self.name = name

    def debug(self, msg, *args, **kwargs):
        pass

    info = debug

    def warning(self, msg, *args, **kwargs):
        __vp__.note('log.warning', msg)

    warn = warning

    def error(self, msg, *args, **kwargs):
        __vp__.note('log.error', msg)

    def exception(self, msg, *args, **kwargs):
        __vp__.note('log.error', msg)

    critical = error

    def log(self, level, msg, *args, **kwargs):
        if level >= WARNING:
            __vp__.note('log.error', msg)

    def isEnabledFor(self, level):
        return __vp__.atom('log.enabled')

    def addHandler(self, h):
        pass

    def setLevel(self, l):
        pass


class Handler(object):
    def __init__(self, *a, **k):
        pass


class NullHandler(Handler):
    pass


class StreamHandler(Handler):
    pass


def getLogger(name=None):
    return Logger(name)


def debug(msg, *args, **kwargs):
    pass


info = debug


def warning(msg, *args, **kwargs):
    __vp__.note('log.warning', msg)


warn = warning


def error(msg, *args, **kwargs):
    __vp__.note('log.error', msg)


exception = critical = error


def basicConfig(**k):
    pass
