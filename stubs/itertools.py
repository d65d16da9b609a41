import __vp__

starmap = __vp__.starmap
count = __vp__.count
repeat = __vp__.repeat
islice = __vp__.islice


class chain(object):
    def __new__(cls, *its):
        return __vp__.chain(*its)

    @staticmethod
    def from_iterable(it):
        return __vp__.chain_from(it)


def product(*its):
    pools = [tuple(p) for p in its]
    result = [[]]
    for pool in pools:
        result = [x + [y] for x in result for y in pool]
    for prod in result:
        yield tuple(prod)


def groupby(iterable, key=None):
    __vp__.unsupported('itertools.groupby')


def takewhile(pred, it):
    for x in it:
        if not pred(x):
            break
        yield x


def dropwhile(pred, it):
    __vp__.unsupported('itertools.dropwhile')
