__vp_open__ = 'optparse'


def make_option(*args, **kwargs):
    return (args, kwargs)
