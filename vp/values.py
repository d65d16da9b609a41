"""Abstract values.

Constants are host values (None, bool, int, float, str, bytes, tuple).  Everything the
analysis does not know is a Term (an uninterpreted symbol or operator application), a
SStr (string with unknown parts), or an Ite (two values joined at a control-flow merge
point, kept apart by the condition that selects between them).
"""


class Absent(object):
    """The value of a slot that may not exist (joined with an existing one)."""
    def __repr__(self):
        return '<absent>'


ABSENT = Absent()


class Term(object):
    __slots__ = ('op', 'args', '_h')

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = hash((op, args))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Term) and self._h == o._h and self.op == o.op and same_args(self.args, o.args))

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        if self.op == 'sym':
            return '<%s>' % self.args[0]
        return '%s(%s)' % (self.op, ', '.join(show(a) for a in self.args))


def same_args(a, b):
    return len(a) == len(b) and all(type(x) is type(y) and x == y for x, y in zip(a, b))


def show(v):
    if isinstance(v, str):
        return repr(str(v))
    return repr(v)


# symbols that stand for names or identifiers: two different ones are different names,
# none of them is empty, and none contains quotes, blanks, '%' or ';'
NAME_OPS = frozenset(['tbl', 'col', 'ct', 'maxlen'])


def sym(name, ty='any'):
    return Term('sym', name, ty)


def term_type(t):
    if t.op == 'sym':
        return t.args[1]
    if t.op in ('tbl', 'col', 'qn', 'str', 'slice', 'strop', 'repr'):
        return 'str'
    if t.op in ('ct', 'maxlen', 'len', 'add', 'sub', 'mul', 'int', 'index'):
        return 'int'
    if t.op == 'key':
        return 'key'         # primary key of an existing row: any value but None
    if t.op in BOOL_OPS:
        return 'bool'
    if t.op == 'item' and isinstance(t.args[0], Term) and t.args[0].op == 'elem' and \
            isinstance(t.args[0].args[0], Term) and t.args[0].args[0].op == 'rows':
        return 'str'         # the catalogue queries return text columns
    if t.op == 'elem' and isinstance(t.args[0], Term) and t.args[0].op == 'range':
        return 'int'
    return 'any'


BOOL_OPS = frozenset(['not', 'and', 'or', 'truth', 'eq', 'is', 'lt', 'le', 'in', 'isinst', 'hasattr', 'atom',
                      'more', 'startswith', 'endswith', 'callable'])


class Ite(object):
    __slots__ = ('c', 'a', 'b', '_h')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b
        self._h = hash(('ite', c, a, b))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Ite) and self._h == o._h and self.c == o.c and same(self.a, o.a) and same(self.b, o.b))

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return 'ite(%r, %s, %s)' % (self.c, show(self.a), show(self.b))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return type(a) is type(b) and a == b


class LStr(str):
    """A string constant that remembers which source lines its pieces come from."""
    segs = ()


def lstr(text, segs):
    if not segs:
        return str(text)
    r = LStr(text)
    out = []
    for s in segs:
        if out and out[-1][2] == s[2] and out[-1][1] == s[0]:
            out[-1] = (out[-1][0], s[1], s[2])
        else:
            out.append(s)
    r.segs = tuple(out)
    return r


def lcat(strs):
    segs = []
    n = 0
    for s in strs:
        if isinstance(s, LStr):
            for a, b, src in s.segs:
                segs.append((a + n, b + n, src))
        n += len(s)
    return lstr(''.join(strs), segs)


def lslice(s, a, b):
    r = str(s)[a:b]
    if isinstance(s, LStr):
        segs = [(max(x, a) - a, min(y, b) - a, src) for x, y, src in s.segs if x < b and y > a]
        return lstr(r, segs)
    return r


class SStr(object):
    """String made of literal pieces and unknown parts (Terms or Ites)."""
    __slots__ = ('parts', '_h')

    def __init__(self, parts):
        self.parts = parts
        self._h = hash(('sstr',) + tuple(parts))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, SStr) and self._h == o._h and len(self.parts) == len(o.parts) and
                             all(same(x, y) for x, y in zip(self.parts, o.parts)))

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return 'S' + repr([p if not isinstance(p, str) else str(p) for p in self.parts])


def cat(parts):
    """Concatenate str / SStr / Term / Ite pieces to a normalised string value."""
    flat = []
    for p in parts:
        if isinstance(p, SStr):
            flat.extend(p.parts)
        else:
            flat.append(p)
    out = []
    run = []
    for p in flat:
        if isinstance(p, str):
            if p:
                run.append(p)
        else:
            if run:
                out.append(lcat(run) if len(run) > 1 else run[0])
                run = []
            out.append(p)
    if run:
        out.append(lcat(run) if len(run) > 1 else run[0])
    if not out:
        return ''
    if len(out) == 1 and (isinstance(out[0], str) or (isinstance(out[0], Term) and term_type(out[0]) == 'str')):
        return out[0]
    return SStr(tuple(out))


def sparts(v):
    """Parts of a string-like value."""
    if isinstance(v, SStr):
        return v.parts
    return (v,)


class Ref(object):
    __slots__ = ('addr',)

    def __init__(self, addr):
        self.addr = addr

    def __hash__(self):
        return hash(('ref', self.addr))

    def __eq__(self, o):
        return isinstance(o, Ref) and o.addr == self.addr

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '@%d' % self.addr


class Bound(object):
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __hash__(self):
        return hash(('bound', self.func, self.self_))

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func == self.func and same(o.self_, self.self_)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return 'bound(%r, %r)' % (self.func, self.self_)


class Builtin(object):
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class Prop(object):
    __slots__ = ('fget', 'fset', 'fdel')

    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class ClsM(object):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class StatM(object):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Super(object):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Lazy(object):
    """Lazy iterator view (enumerate, map, zip, chain, ...)."""
    __slots__ = ('kind', 'args')

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def __repr__(self):
        return 'lazy(%s, %r)' % (self.kind, self.args)


class DictView(object):
    """obj.__dict__"""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


class SegOpt(object):
    """List items that are present only under a condition."""
    __slots__ = ('c', 'items')

    def __init__(self, c, items):
        self.c = c
        self.items = items

    def __repr__(self):
        return 'opt(%r, %r)' % (self.c, self.items)


class SegFor(object):
    """List items contributed by an unknown number of loop iterations."""
    __slots__ = ('loop', 'items')

    def __init__(self, loop, items=()):
        self.loop = loop
        self.items = items

    def __repr__(self):
        return 'for(%r, %r)' % (self.loop, self.items)


# ---- conditions --------------------------------------------------------------------

def neg(c):
    if isinstance(c, bool):
        return not c
    if c.op == 'not':
        return c.args[0]
    return Term('not', c)


def conj(cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if isinstance(c, Term) and c.op == 'and':
            out.extend(x for x in c.args if x not in out)
        elif c not in out:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Term('and', *out)


def disj(cs):
    return neg(conj([neg(c) for c in cs]))


def mk_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if c.op == 'not':
        return mk_ite(c.args[0], b, a)
    if isinstance(a, Ite) and a.c == c:
        a = a.a
    if isinstance(b, Ite) and b.c == c:
        b = b.b
    if same(a, b):
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return neg(c)
    return Ite(c, a, b)


# ---- heap records ------------------------------------------------------------------

class OInst(object):
    __slots__ = ('cls', 'attrs', 'site')

    def __init__(self, cls, attrs, site=None):
        self.cls, self.attrs, self.site = cls, attrs, site

    def put(self, name, v):
        d = dict(self.attrs)
        d[name] = v
        return OInst(self.cls, d, self.site)

    def drop(self, name):
        d = dict(self.attrs)
        d.pop(name, None)
        return OInst(self.cls, d, self.site)


class OClass(object):
    __slots__ = ('name', 'bases', 'mro', 'attrs', 'meta', 'module', 'native', 'site')

    def __init__(self, name, bases, mro, attrs, meta, module, native=None, site=None):
        self.name, self.bases, self.mro, self.attrs = name, bases, mro, attrs
        self.meta, self.module, self.native, self.site = meta, module, native, site

    def put(self, name, v):
        d = dict(self.attrs)
        d[name] = v
        return OClass(self.name, self.bases, self.mro, d, self.meta, self.module, self.native, self.site)

    def drop(self, name):
        d = dict(self.attrs)
        d.pop(name, None)
        return OClass(self.name, self.bases, self.mro, d, self.meta, self.module, self.native, self.site)


class OFunc(object):
    __slots__ = ('node', 'frame', 'defaults', 'kwdefaults', 'name', 'qualname', 'module', 'file', 'attrs', 'isgen')

    def __init__(self, node, frame, defaults, kwdefaults, name, qualname, module, file, attrs, isgen):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults
        self.name, self.qualname, self.module, self.file = name, qualname, module, file
        self.attrs, self.isgen = attrs, isgen

    def put(self, name, v):
        d = dict(self.attrs)
        d[name] = v
        return OFunc(self.node, self.frame, self.defaults, self.kwdefaults, self.name, self.qualname, self.module, self.file, d, self.isgen)

    def drop(self, name):
        d = dict(self.attrs)
        d.pop(name, None)
        return OFunc(self.node, self.frame, self.defaults, self.kwdefaults, self.name, self.qualname, self.module, self.file, d, self.isgen)


class OModule(object):
    __slots__ = ('name', 'attrs', 'file')

    def __init__(self, name, attrs, file=None):
        self.name, self.attrs, self.file = name, attrs, file

    def put(self, name, v):
        d = dict(self.attrs)
        d[name] = v
        return OModule(self.name, d, self.file)

    def drop(self, name):
        d = dict(self.attrs)
        d.pop(name, None)
        return OModule(self.name, d, self.file)


class OFrame(object):
    """Variables of a function activation, module or class body; kept in the heap so that closures share them."""
    __slots__ = ('vars', 'parent', 'kind', 'module', 'func', 'globals_')

    def __init__(self, vars, parent, kind, module, func=None, globals_=None):
        self.vars, self.parent, self.kind, self.module, self.func, self.globals_ = vars, parent, kind, module, func, globals_

    def put(self, name, v):
        d = dict(self.vars)
        d[name] = v
        return OFrame(d, self.parent, self.kind, self.module, self.func, self.globals_)

    def drop(self, name):
        d = dict(self.vars)
        d.pop(name, None)
        return OFrame(d, self.parent, self.kind, self.module, self.func, self.globals_)


class OList(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class ODict(object):
    """entries: hashable key -> (key value, value);  open_: Term naming unknown further entries, or None."""
    __slots__ = ('d', 'open_', 'ordered_cls', 'default')

    def __init__(self, d, open_=None, default=None):
        self.d, self.open_, self.default = d, open_, default

    def put(self, k, v):
        d = dict(self.d)
        d[k] = v
        return ODict(d, self.open_, self.default)

    def drop(self, k):
        d = dict(self.d)
        d.pop(k, None)
        return ODict(d, self.open_, self.default)


class OSet(object):
    __slots__ = ('d', 'open_')

    def __init__(self, d, open_=None):
        self.d, self.open_ = d, open_


class OGen(object):
    """Un-started generator: a function activation or a generator expression."""
    __slots__ = ('run', 'label', 'func')

    def __init__(self, run, label, func=None):
        self.run, self.label, self.func = run, label, func


class OIter(object):
    """Iterator over concrete items (iter() of a list and the like)."""
    __slots__ = ('items', 'pos')

    def __init__(self, items, pos):
        self.items, self.pos = items, pos
