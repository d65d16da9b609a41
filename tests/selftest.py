"""Compares the interpreter with CPython on small closed programs (no code of the analysed project)."""
import os, sys, tempfile, textwrap
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.interp import Interp
from vp.values import *

PROGS = [
 "r = [x*2 for x in range(5) if x % 2]",
 "r = '%s-%d-%(a)s' % {'a': 1} if False else '%s-%d' % ('x', 3)",
 """
class A:
    x = 1
    def __init__(self, y=2, *a, **k):
        self.y = y; self.a = a; self.k = k
    @property
    def p(self): return self.y + 1
    @classmethod
    def c(cls): return cls.__name__
    @staticmethod
    def s(q): return q*2
class B(A):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        super(B, self).__init__(5, 6, z=7)
b = B(3)
r = (b.y, b.p, B.c(), b.s(4), b.a, sorted(b.k.items()), isinstance(b, A), hasattr(b, 'nope'), getattr(b, 'nope', 9))
""",
 """
class M(type):
    def __new__(cls, name, bases, ns):
        ns['added'] = name.lower()
        return super().__new__(cls, name, bases, ns)
    def __init__(cls, name, bases, ns):
        super(M, cls).__init__(name, bases, ns)
        cls.inited = True
class C(metaclass=M):
    pass
class D(C): pass
r = (C.added, D.added, D.inited, type(D) is M)
""",
 """
def g(n):
    try:
        for i in range(n):
            yield i
    finally:
        out.append('fin')
out = []
r = [list(g(3)), sum(g(4)), [x for x in g(2)], next(g(3)), any(x > 1 for x in g(3)), all(x < 5 for x in g(3))]
r.append(out[:3])
""",
 """
def f(x):
    try:
        if x == 0: raise ValueError('zero')
        if x == 1: raise KeyError('k')
        return 'ok'
    except ValueError as e:
        return str(e)
    except (KeyError, TypeError):
        return 'key'
    finally:
        log.append(x)
log = []
r = [f(0), f(1), f(2)] + log
""",
 """
d = {}
for k in 'abc':
    d.setdefault(k, []).append(k.upper())
d.update(z=1, y=2)
r = (sorted(d), list(d.items()), d.get('q'), d.pop('z'), 'a' in d, len(d), dict(a=1, **{'b': 2}))
""",
 """
from contextlib import contextmanager
@contextmanager
def cm(x):
    log.append('in')
    try:
        yield x
    finally:
        log.append('out')
log = []
with cm(4) as v, cm(5) as w:
    log.append(v + w)
class E:
    def __enter__(self): return self
    def __exit__(self, *a): log.append(a[0] is None); return True
with E():
    raise ValueError
r = log
""",
 """
i = 0
while True:
    i += 1
    if i == 3: continue
    if i > 5: break
else:
    i = 100
r = i
""",
 """
a, *b = [1,2,3]
(c, d), e = (1, 2), 3
r = (a, b, c, d, e, [i for i, x in enumerate('ab')], list(zip([1,2],[3,4])), list(map(lambda x: x+1, [1])), ', '.join(str(x) for x in (1,2)))
""",
 "r = ('{} {x!r} {0:>3}'.format(1, x='q') if False else '{} {x!r}'.format(1, x='q'), 'a,b'.split(','), ' a '.strip(), 'abc'[1:], 'abc'[-1], 'AbC'.lower(), 'a%sb' % 'x', f'{1+1}-{\"z\"!r}')",
 """
import functools
def deco(f):
    @functools.wraps(f)
    def w(*a, **k):
        return ('w',) + f(*a, **k)
    return w
@deco
def h(a, b=2, *c, d=4, **e):
    return (a, b, c, d, e)
r = (h(1), h(1, 3, 5, d=6, z=1), h.__name__)
""",
 """
x = 1
def outer():
    x = 2
    def inner():
        nonlocal x
        x += 1
        return x
    return inner() + inner()
def setg():
    global x
    x = 50
setg()
r = (outer(), x)
""",
 """
class P(dict):
    def __getitem__(self, k): return dict.get(self, k, 'dflt')
p = P(a=1)
class L(list):
    def append(self, x): list.append(self, x * 2)
l = L(); l.append(2)
r = (p['a'], p['b'], list(l), len(l), isinstance(l, list))
""",
 """
class Desc:
    def __get__(self, o, t): return 'g' if o is not None else 'cls'
    def __set__(self, o, v): o.__dict__['_v'] = v
class X:
    d = Desc()
    def __getattr__(self, n):
        if n.startswith('dyn'): return n
        raise AttributeError(n)
x = X(); x.d = 5
r = (x.d, X.d, x._v, x.dyna, hasattr(x, 'zz'), getattr(x, 'zz', 3))
""",
 """
try:
    {}['a']
except KeyError as e:
    r1 = e.args
try:
    int('x')
except ValueError:
    r2 = 'v'
try:
    raise OSError(2, 'No')
except OSError as e:
    r3 = (e.errno, e.strerror)
try:
    None.foo
except AttributeError:
    r4 = 1
try:
    undefined_name
except NameError:
    r5 = 1
try:
    [].x
except AttributeError: r6 = 1
try:
    {}.values()[0]
except TypeError: r7 = 1
r = (r1, r2, r3, r4, r5, r6, r7)
""",
 """
s = {1,2} | {3}
r = (sorted(s - {2}), sorted({1,2} & {2}), 2 in s, len(s), sorted(set([1,1,2])), min(3,1), max([2,5]), sum([1,2],0), sorted([3,1,2], reverse=True), sorted('bca', key=lambda c: c))
""",
 """
class T:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return self.v == o.v
    def __hash__(self): return hash(self.v)
    def __add__(self, o): return T(self.v + o.v)
    def __bool__(self): return self.v > 0
    def __len__(self): return 3
    def __iter__(self): return iter([1,2])
    def __contains__(self, x): return x == 7
    def __call__(self, z): return z
    def __str__(self): return 'T%d' % self.v
t = T(1)
r = (t == T(1), t != T(2), (t+T(2)).v, bool(T(0)), len(t), list(t), 7 in t, t(5), str(t), '%s' % t, t in [T(1)])
""",
 """
from itertools import chain
r = (list(chain([1],[2,3])), list(chain.from_iterable([[1],[2]])), [x for y in [[1],[2]] for x in y], {k: v for k, v in [(1,2)]}, [*range(3), *[4]], {**{'a':1}, 'b':2})
""",
 """
def f(*args, **kw): return args, kw
class Q:
    m = f
q = Q()
l = [1,2,3,4]
del l[0]
l[0] = 9
l[1:2] = [7,7]
d = {'a':1}
del d['a']
x = y = 3
x += 1
assert x == 4, 'no'
r = (len(q.m(1)[0]), l, d, x, y, 1 < 2 < 3, not 0, -x, x if y else 0, (lambda: 3)(), 5 // 2, 5 % 3, 2 ** 3, None or 'a', '' and 1)
""",
 """
def gen():
    x = yield 1
    yield 2
def dele():
    yield from gen()
    yield 3
r = list(dele())
for a in gen():
    if a == 1: break
else:
    r.append('no')
def early():
    for a in dele():
        if a == 2:
            return a
r.append(early())
""",
 """
import copy, collections
class O(object): pass
o = O(); o.l = [1]; o.o = O(); o.o.z = 1
c = copy.copy(o); d = copy.deepcopy(o)
c.l.append(2); d.l.append(3); d.o.z = 5
dd = collections.defaultdict(list); dd['a'].append(1)
od = collections.OrderedDict(); od['x'] = 1
r = (o.l, c.l, d.l, o.o.z, dict(dd), list(od))
""",
]

def unwrap(it, v):
    v = it.resolve(v)
    if isinstance(v, str): return str(v)
    if isinstance(v, tuple): return tuple(unwrap(it, x) for x in v)
    r = it.rec(v)
    if isinstance(r, OInst) and '__payload__' in r.attrs: return unwrap(it, r.attrs['__payload__'])
    if isinstance(r, OList): return [unwrap(it, x) for x in r.items]
    if isinstance(r, ODict): return {unwrap(it, k): unwrap(it, x) for k, x in r.d.values()}
    if isinstance(r, OSet): return {unwrap(it, k) for k, x in r.d.values()}
    return v

def main():
    from vp.project import stub_finder
    bad = 0
    for i, p in enumerate(PROGS):
        p = textwrap.dedent(p)
        ns = {}
        exec(p, ns)
        with tempfile.NamedTemporaryFile('w', suffix='.py') as f:
            f.write(p); f.flush()
            it = Interp(lambda n: (f.name, 'prog.py', False, True) if n == 'prog' else stub_finder(n))
            try:
                out = it.run(lambda: it.import_module('prog'))
                k, st, v = out[0]
                assert len(out) == 1, out
                it.st = st
                if k == 'raise':
                    got = ('raise', it.get(v).attrs)
                else:
                    got = unwrap(it, it.getattr(v, 'r'))
            except Exception as e:
                import traceback; traceback.print_exc()
                got = e
        if got != ns['r']:
            bad += 1
            print('PROGRAM', i, p, '\n  expected', ns['r'], '\n  got     ', got)
    print('%d programs, %d bad' % (len(PROGS), bad))
    return bad

if __name__ == '__main__':
    sys.exit(1 if main() else 0)
