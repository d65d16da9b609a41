import __vp__
__vp_open__ = 'time'


def sleep(seconds):
    __vp__.interrupt('sleep')
    __vp__.note('sleep', seconds)


def time():
    return __vp__.fresh('time', 'int')


def monotonic():
    return __vp__.fresh('time', 'int')
