import __vp__

OrderedDict = dict
__vp_open__ = 'collections'


class defaultdict(object):
    def __new__(cls, *args, **kwargs):
        return __vp__.defaultdict(*args, **kwargs)


def namedtuple(name, fields, **kw):
    if isinstance(fields, str):
        names = fields.replace(',', ' ').split()
    else:
        names = list(fields)

    class nt(tuple):
        pass

    class NT(object):
        _fields = tuple(names)

        def __init__(self, *args, **kwargs):
            i = 0
            for n in names:
                if i < len(args):
                    self.__dict__[n] = args[i]
                elif n in kwargs:
                    self.__dict__[n] = kwargs[n]
                else:
                    raise TypeError('missing argument')
                i += 1

        def __iter__(self):
            return iter([getattr(self, n) for n in names])

        def __getitem__(self, k):
            return [getattr(self, n) for n in names][k]

        def __len__(self):
            return len(names)

        def __eq__(self, other):
            return tuple(self) == tuple(other)

        def __hash__(self):
            return hash(tuple(self))

        def _replace(self, **kw):
            d = dict((n, getattr(self, n)) for n in names)
            d.update(kw)
            return NT(**d)

        def _asdict(self):
            return dict((n, getattr(self, n)) for n in names)
    NT.__name__ = name
    return NT


class deque(list):
    def __init__(self, it=(), maxlen=None):
        list.__init__(self, it)

    def appendleft(self, x):
        self.insert(0, x)

    def popleft(self):
        return self.pop(0)


def Counter(*a):
    __vp__.unsupported('collections.Counter')
