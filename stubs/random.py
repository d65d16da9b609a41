import __vp__
__vp_open__ = 'random'


def choice(seq):
    return __vp__.term('strop', 'random.choice', __vp__.fresh('rnd'))


def randint(a, b):
    return __vp__.term('int', 'random', a, b, __vp__.fresh('rnd'))


def randrange(a, b=None, c=1):
    if b is None:
        return __vp__.term('int', 'random', 0, a - 1, __vp__.fresh('rnd'))
    return __vp__.term('int', 'random', a, b - 1, __vp__.fresh('rnd'))


def getrandbits(n):
    return __vp__.term('int', 'random', 0, 2 ** n - 1, __vp__.fresh('rnd'))


def sample(population, k):
    return [choice(population) for i in range(k)]


def choices(population, k=1):
    return [choice(population) for i in range(k)]


def random():
    return __vp__.term('int', 'random01', __vp__.fresh('rnd'))


def seed(*a):
    __vp__.note('random.seed', *a)


class Random(object):
    def __init__(self, seed=None):
        self.seed_ = seed

    def randint(self, a, b):
        if self.seed_ is None:
            return randint(a, b)
        return __vp__.term('int', 'seeded', a, b, self.seed_)

    def choice(self, seq):
        return choice(seq)


class SystemRandom(Random):
    def __init__(self):
        self.seed_ = None
