__vp_open__ = 'django'
VERSION = (2, 0, 13, 'final', 0)
__version__ = '2.0.13'


def get_version(*a, **k):
    return '2.0.13'


def setup(*a, **k):
    return None
