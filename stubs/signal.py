import __vp__
__vp_open__ = 'signal'
SIGTERM = 15
SIGINT = 2
SIGHUP = 1


def signal(num, handler):
    __vp__.note('signal', num, handler)
