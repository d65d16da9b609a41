import __vp__


def warn(message, category=None, stacklevel=1, source=None):
    return None


def simplefilter(*a, **k):
    return None


filterwarnings = simplefilter
