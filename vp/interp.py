"""Abstract interpreter over the Python syntax tree.

The interpreter never runs code of the analysed project.  It walks the syntax tree and
computes, for one entry point, the joined abstract state (heap), the joined result value and
a tree of effects.  Control flow on unknown conditions is analysed on both sides and joined
at the merge point; loops over unknown collections are summarised by one abstract iteration
started from a widened state.
"""
import ast
import os

from . import realnames
from .values import *  # noqa


class Dead(Exception):
    """The current program point has no normal continuation."""


class Unsupported(Exception):
    """The analysis met a construct it cannot model; the check gives no verdict."""


class TNode(object):
    """Effect trace: linked list, so that merging finds common prefixes cheaply."""
    __slots__ = ('parent', 'ev', 'depth')

    def __init__(self, parent, ev):
        self.parent, self.ev = parent, ev
        self.depth = parent.depth + 1 if parent else 1


class Ev(object):
    """One effect."""
    __slots__ = ('name', 'args', 'kw', 'stack', 'result', 'uid')

    def __init__(self, name, args, kw, stack, result, uid):
        self.name, self.args, self.kw, self.stack, self.result, self.uid = name, args, kw, stack, result, uid

    def __repr__(self):
        return 'Ev(%s%r%s)' % (self.name, self.args, ' ' + repr(self.kw) if self.kw else '')


class IfEv(object):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'If(%r, %r, %r)' % (self.c, self.a, self.b)


class KnowEv(object):
    """Conditions that hold on the way a branch of an unknown choice was taken."""
    __slots__ = ('facts',)

    def __init__(self, facts):
        self.facts = facts

    def __repr__(self):
        return 'Know(%r)' % (self.facts,)


class StarEv(object):
    """Unknown number of complete iterations of a loop body."""
    __slots__ = ('loop', 'body', 'info', 'site')

    def __init__(self, loop, info, site):
        self.loop, self.info, self.site = loop, info, site
        self.body = None

    def __repr__(self):
        return 'Star(%r, %r)' % (self.info, self.body)


def trace_list(t, upto=None):
    out = []
    while t is not None and t is not upto:
        out.append(t.ev)
        t = t.parent
    out.reverse()
    return out


def common_trace(a, b):
    while a is not b:
        da = a.depth if a else 0
        db = b.depth if b else 0
        if da >= db and a is not None:
            a = a.parent
        else:
            b = b.parent
    return a


class State(object):
    __slots__ = ('heap', 'pc', 'facts', 'trace')

    def __init__(self, heap, pc=(), facts=None, trace=None):
        self.heap, self.pc, self.facts, self.trace = heap, pc, facts if facts is not None else {}, trace

    def copy(self):
        return State(dict(self.heap), self.pc, self.facts, self.trace)

    def assume(self, c, val):
        facts = dict(self.facts)
        add_fact(facts, c, val)
        return State(dict(self.heap), self.pc + ((c, val),), facts, self.trace)


def add_fact(facts, c, val):
    if isinstance(c, bool):
        return
    if c.op == 'not':
        return add_fact(facts, c.args[0], not val)
    if c.op == 'and' and val:
        for x in c.args:
            add_fact(facts, x, True)
    elif c.op == 'or' and not val:
        for x in c.args:
            add_fact(facts, x, False)
    else:
        facts[c] = val
        if val and c.op == 'eq':
            # equality with a constant excludes the other constants
            facts[('eqc', c.args[0])] = c.args[1]
        if c.op in ('and', 'or'):
            facts[CLAUSES] = facts.get(CLAUSES, ()) + ((c, val),)
        if facts.get(CLAUSES):
            propagate(facts)


CLAUSES = ('clauses',)


def propagate(facts):
    """Draw conclusions from known disjunctions of which one member is left."""
    pending = facts[CLAUSES]
    keep = []
    units = []
    for c, val in pending:
        open_, done = [], False
        for x in c.args:
            d = decide(facts, x)
            if d is None:
                open_.append(x)
            elif d is val:
                done = True
                break
        if done or not open_:
            continue
        if len(open_) == 1:
            units.append((open_[0], val))
        else:
            keep.append((c, val))
    if len(keep) != len(pending):
        facts[CLAUSES] = tuple(keep)
    for x, val in units:
        add_fact(facts, x, val)


def decide(facts, c):
    """True / False if the facts decide the condition, else None."""
    if isinstance(c, bool):
        return c
    v = facts.get(c)
    if v is not None:
        return v
    op = c.op
    if op == 'not':
        v = decide(facts, c.args[0])
        return None if v is None else not v
    if op == 'and':
        r = True
        for x in c.args:
            v = decide(facts, x)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    if op == 'or':
        r = False
        for x in c.args:
            v = decide(facts, x)
            if v is True:
                return True
            if v is None:
                r = None
        return r
    if op == 'eq':
        k = facts.get(('eqc', c.args[0]))
        if k is not None and is_const(k) and is_const(c.args[1]):
            return k == c.args[1]
    return None


def uses_loop(c, lid):
    """The condition reads a variable changed by the loop."""
    if isinstance(c, Term):
        return (c.op == 'loopvar' and c.args[0] == lid) or any(uses_loop(a, lid) for a in c.args)
    if isinstance(c, Ite):
        return uses_loop(c.c, lid) or uses_loop(c.a, lid) or uses_loop(c.b, lid)
    if isinstance(c, SStr):
        return any(uses_loop(a, lid) for a in c.parts)
    return isinstance(c, tuple) and any(uses_loop(a, lid) for a in c)


def is_const(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes)) or (isinstance(v, tuple) and all(is_const(x) for x in v))


class Source(object):
    """One analysed source file."""

    def __init__(self, path, rel, tracked):
        self.path, self.rel, self.tracked = path, rel, tracked
        with open(path, encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, path)


_SOURCES = {}


def load_source(path, rel, tracked):
    key = path
    s = _SOURCES.get(key)
    if s is None:
        s = _SOURCES[key] = Source(path, rel, tracked)
    return s


def has_yield(node):
    """Does this function's own body contain a yield?"""
    stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(n, ast.GeneratorExp):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def local_names(node):
    """Names assigned in a function body (its locals)."""
    names = set()
    nonl = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            stack.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    names.add(w.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            nonl.update(n.names)
        stack.extend(ast.iter_child_nodes(n))
    return names - nonl, nonl


MAXDEPTH = 120


class Interp(object):
    def __init__(self, finder, config=None):
        self.finder = finder            # module name -> (path, rel, is_pkg, tracked) or None
        self.config = config or {}
        self.st = State({})
        self.next_addr = 1
        self.next_uid = 1
        self.abrupt = []
        self.seg_heaps = {}
        self.frame = None
        self.stack = []                 # (file, line, function)
        self.node = None
        self.modules = {}
        self.natives = {}
        self.site_cache = {}
        self.locals_cache = {}
        self.gen_cache = {}
        self.yield_stack = []
        self.analysed_funcs = set()
        self.analysed_calls = set()
        self.exc_sites = {}
        self.opaque_funcs = {}          # qualified name -> event name
        self.assumptions = set()
        self.joins = 0
        self.loops = 0
        from . import builtins_ as b
        b.boot(self)

    # ---- heap ---------------------------------------------------------------

    def alloc(self, rec):
        a = self.next_addr
        self.next_addr += 1
        self.st.heap[a] = rec
        return Ref(a)

    def get(self, ref):
        return self.st.heap[ref.addr]

    def set(self, ref, rec):
        self.st.heap[ref.addr] = rec

    def uid(self):
        self.next_uid += 1
        return self.next_uid

    def rec(self, v, cls=None):
        if isinstance(v, Ref):
            r = self.st.heap.get(v.addr)
            if cls is None or isinstance(r, cls):
                return r
        return None

    def new_list(self, items=()):
        return self.alloc(OList(items))

    def new_dict(self, pairs=()):
        d = {}
        for k, v in pairs:
            d[self.key(k)] = (k, v)
        return self.alloc(ODict(d))

    def key(self, v):
        """Hashable identity of a dictionary key."""
        if isinstance(v, bool):
            return ('c', int(v))
        if isinstance(v, (int, float)):
            return ('c', v)
        if isinstance(v, str):
            return ('s', str(v))
        if isinstance(v, tuple):
            return ('t',) + tuple(self.key(x) for x in v)
        if isinstance(v, Ite):
            d = self.decide(v.c)
            if d is not None:
                return self.key(v.a if d else v.b)
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, OInst):
                eq = self.class_lookup(r.cls, '__eq__')
                if eq is not None and isinstance(eq[0], Ref):
                    hs = self.class_lookup(r.cls, '__hash__')
                    if hs is not None and isinstance(hs[0], Ref):
                        return ('h', self.key(self.call(Bound(hs[0], v), [], {})))
            if isinstance(r, (OList, ODict, OSet)):
                self.throw('TypeError', 'unhashable type')
        return ('v', v)

    # ---- conditions -----------------------------------------------------------

    def decide(self, c):
        return decide(self.st.facts, c)

    def fork(self, c, fa, fb):
        """Analyse both sides of an undecided condition and join."""
        d = self.decide(c)
        if d is True:
            return fa()
        if d is False:
            return fb()
        base = self.st
        res = []
        for val, f in ((True, fa), (False, fb)):
            self.st = base.assume(c, val)
            frame, stack, node = self.frame, len(self.stack), self.node
            try:
                v = f()
                res.append((self.st, v))
            except Dead:
                pass
            self.frame, self.node = frame, node
            del self.stack[stack:]
        return self.join(res)

    def join(self, res):
        if not res:
            raise Dead()
        if len(res) == 1:
            self.st = res[0][0]
            return res[0][1]
        self.st, v = self.merge(res)
        return v

    def case(self, v, fn):
        """Apply fn to each alternative of a joined value."""
        if not isinstance(v, Ite):
            return fn(v)
        return self.fork(v.c, lambda: self.case(v.a, fn), lambda: self.case(v.b, fn))

    def resolve(self, v):
        """Drop alternatives excluded by the current facts."""
        while isinstance(v, Ite):
            d = self.decide(v.c)
            if d is None:
                a, b = self.resolve_under(v.a, v.c, True), self.resolve_under(v.b, v.c, False)
                return v if (a is v.a and b is v.b) else mk_ite(v.c, a, b)
            v = v.a if d else v.b
        return v

    def resolve_under(self, v, c, val):
        if not isinstance(v, Ite):
            return v
        facts = dict(self.st.facts)
        add_fact(facts, c, val)
        old = self.st
        self.st = State(old.heap, old.pc, facts, old.trace)
        try:
            return self.resolve(v)
        finally:
            self.st = old

    # ---- merging ----------------------------------------------------------------

    def merge(self, res):
        """Join several (state, value) pairs; they differ in the decisions on their path."""
        self.joins += 1
        if len(res) == 1:
            return res[0]
        pcs = [s.pc for s, _ in res]
        i = 0
        m = min(len(p) for p in pcs)
        while i < m and all(p[i] is pcs[0][i] or p[i] == pcs[0][i] for p in pcs):
            i += 1
        ended = [r for r in res if len(r[0].pc) == i]
        if ended:
            others = [r for r in res if len(r[0].pc) > i]
            if len(ended) > 1:
                # no decision tells them apart: unknown choice
                c = Term('atom', 'choice', self.uid())
                e = self.merge2(c, ended[0], self.merge(ended[1:]) if len(ended) > 2 else ended[1], ended[0][0].pc)
            else:
                e = ended[0]
            if not others:
                return e
            gate = disj([conj([c if v else neg(c) for c, v in s.pc[i:]]) for s, _ in others])
            o = self.merge(others) if len(others) > 1 else others[0]
            return self.merge2(gate, o, e, pcs[0][:i])
        c = pcs[0][i][0]
        ta = [r for r in res if r[0].pc[i] == (c, True)]
        fa = [r for r in res if r[0].pc[i] == (c, False)]
        rest = [r for r in res if r[0].pc[i][0] != c]
        if rest:
            # unrelated decisions (should not happen): treat as unknown choice
            ta, fa, c = ta + fa, rest, Term('atom', 'choice', self.uid())
        a = self.merge(ta) if len(ta) > 1 else ta[0]
        b = self.merge(fa) if len(fa) > 1 else fa[0]
        return self.merge2(c, a, b, pcs[0][:i])

    def merge2(self, c, ra, rb, pc):
        sa, va = ra
        sb, vb = rb
        heap = {}
        ha, hb = sa.heap, sb.heap
        for addr, r in ha.items():
            o = hb.get(addr)
            heap[addr] = r if (o is r or o is None) else self.merge_rec(c, r, o)
        for addr, r in hb.items():
            if addr not in ha:
                heap[addr] = r
        facts = {}
        # facts established by the common decisions
        for k, v in sa.facts.items():
            if k in sb.facts and same(sb.facts[k], v):
                facts[k] = v
        t = common_trace(sa.trace, sb.trace)
        la, lb = trace_list(sa.trace, t), trace_list(sb.trace, t)
        if la or lb:
            if isinstance(c, Term) and c.op == 'atom' and c.args[0] == 'choice':
                # the choice itself says nothing about the decisions made on either side
                for l, s in ((la, sa), (lb, sb)):
                    known = tuple((k, x) for k, x in s.facts.items() if isinstance(k, Term) and isinstance(x, bool) and k not in facts)
                    if known:
                        l.append(KnowEv(known))
            t = TNode(t, IfEv(c, la, lb))
        v = self.merge_val(c, va, vb)
        return State(heap, pc, facts, t), v

    def merge_val(self, c, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        return mk_ite(c, a, b)

    def merge_map(self, c, a, b):
        if a is b:
            return a
        out = {}
        for k, v in a.items():
            if k in b:
                w = b[k]
                out[k] = v if v is w else self.merge_val(c, v, w)
            else:
                out[k] = mk_ite(c, v, ABSENT)
        for k, w in b.items():
            if k not in a:
                out[k] = mk_ite(c, ABSENT, w)
        return out

    def merge_rec(self, c, a, b):
        if type(a) is not type(b):
            raise Unsupported('join of different object kinds')
        if isinstance(a, OInst):
            cls = a.cls if a.cls == b.cls else mk_ite(c, a.cls, b.cls)
            return OInst(cls, self.merge_map(c, a.attrs, b.attrs), a.site)
        if isinstance(a, OFrame):
            return OFrame(self.merge_map(c, a.vars, b.vars), a.parent, a.kind, a.module, a.func, a.globals_)
        if isinstance(a, OClass):
            return OClass(a.name, a.bases, a.mro, self.merge_map(c, a.attrs, b.attrs), a.meta, a.module, a.native, a.site)
        if isinstance(a, OModule):
            return OModule(a.name, self.merge_map(c, a.attrs, b.attrs), a.file)
        if isinstance(a, OFunc):
            return OFunc(a.node, a.frame, a.defaults, a.kwdefaults, a.name, a.qualname, a.module, a.file,
                         self.merge_map(c, a.attrs, b.attrs), a.isgen)
        if isinstance(a, OList):
            return OList(self.merge_items(c, a.items, b.items))
        if isinstance(a, ODict):
            out = {}
            for k, (kk, v) in a.d.items():
                w = b.d.get(k, (kk, ABSENT))[1]
                out[k] = (kk, self.merge_val(c, v, w))
            for k, (kk, w) in b.d.items():
                if k not in a.d:
                    out[k] = (kk, mk_ite(c, ABSENT, w))
            return ODict(out, a.open_ if a.open_ == b.open_ else (a.open_ or b.open_), a.default)
        if isinstance(a, OSet):
            out = {}
            for k, (kk, v) in a.d.items():
                out[k] = (kk, mk_ite(c, v, b.d[k][1] if k in b.d else ABSENT))
            for k, (kk, w) in b.d.items():
                if k not in a.d:
                    out[k] = (kk, mk_ite(c, ABSENT, w))
            return OSet(out, a.open_ if a.open_ == b.open_ else (a.open_ or b.open_))
        if isinstance(a, OIter):
            return OIter(a.items, mk_ite(c, a.pos, b.pos) if a.pos != b.pos else a.pos)
        if isinstance(a, OGen):
            return a
        raise Unsupported('join of %s' % type(a).__name__)

    def merge_items(self, c, a, b):
        n = 0
        while n < len(a) and n < len(b) and (a[n] is b[n] or same(a[n], b[n])):
            n += 1
        ra, rb = a[n:], b[n:]
        if len(ra) == len(rb) and not any(isinstance(x, (SegOpt, SegFor)) for x in ra + rb):
            return a[:n] + tuple(self.merge_val(c, x, y) for x, y in zip(ra, rb))
        m = 0
        while m < len(ra) and m < len(rb) and (ra[-1 - m] is rb[-1 - m]):
            m += 1
        tail = ra[len(ra) - m:]
        ra, rb = ra[:len(ra) - m], rb[:len(rb) - m]
        out = a[:n]
        if ra:
            out += (SegOpt(c, ra),)
        if rb:
            out += (SegOpt(neg(c), rb),)
        return out + tail

    # ---- events -------------------------------------------------------------------

    def sites(self):
        out = []
        for f, fn, n in self.stack:
            out.append((f, getattr(n, 'lineno', 0) if n is not None else 0, fn))
        cur = self.frame_file()
        if self.node is not None and cur:
            out.append((cur[0], getattr(self.node, 'lineno', 0), cur[1]))
        return tuple(out)

    def frame_file(self):
        if self.frame is None:
            return None
        fr = self.st.heap[self.frame]
        return (fr.module, fr.func)

    def freeze(self, v, depth=0, seen=()):
        """Snapshot of a value for an effect's arguments (containers become tuples)."""
        v = self.resolve(v)
        if isinstance(v, Ite):
            return Ite(v.c, self.freeze(v.a, depth, seen), self.freeze(v.b, depth, seen))
        if isinstance(v, tuple):
            return tuple(self.freeze(x, depth, seen) for x in v)
        if isinstance(v, Ref) and depth < 6 and v.addr not in seen:
            r = self.get(v)
            if isinstance(r, OList):
                return ('list',) + tuple(self.freeze_item(x, depth + 1, seen + (v.addr,)) for x in r.items)
            if isinstance(r, ODict):
                return ('dict', r.open_) + tuple((k, self.freeze(x, depth + 1, seen + (v.addr,))) for k, x in r.d.values())
            if isinstance(r, OSet):
                return ('set', r.open_) + tuple(self.freeze(k, depth + 1, seen + (v.addr,)) for k, x in r.d.values())
            if isinstance(r, OInst) and '__payload__' in r.attrs and isinstance(r.attrs['__payload__'], Ref):
                return self.freeze(r.attrs['__payload__'], depth, seen)
        return v

    def freeze_item(self, x, depth, seen):
        if isinstance(x, SegOpt):
            return ('opt', x.c) + tuple(self.freeze_item(y, depth, seen) for y in x.items)
        if isinstance(x, SegFor):
            return ('for', x.loop) + tuple(self.freeze_item(y, depth, seen) for y in x.items)
        return self.freeze(x, depth, seen)

    def event(self, name, args=(), kw=None, result=None):
        u = self.uid()
        ev = Ev(name, tuple(self.freeze(a) for a in args), {k: self.freeze(v) for k, v in (kw or {}).items()}, self.sites(), result, u)
        self.st.trace = TNode(self.st.trace, ev)
        return ev

    # ---- exceptions -----------------------------------------------------------------

    def throw(self, clsname, *args):
        cls = self.natives.get(clsname)
        if cls is None:
            raise Unsupported('unknown exception %s' % clsname)
        exc = self.alloc(OInst(cls, {'args': tuple(args)}, self.sites()))
        self.raise_(exc)

    def raise_(self, exc):
        if isinstance(exc, Ref):
            r = self.get(exc)
            if isinstance(r, OInst) and '__site__' not in r.attrs:
                self.set(exc, r.put('__site__', self.sites()))
        self.abrupt.append(('raise', None, self.st, exc))
        raise Dead()

    # ---- classes ------------------------------------------------------------------

    def type_of(self, v):
        if v is None:
            return self.natives['NoneType']
        if isinstance(v, bool):
            return self.natives['bool']
        if isinstance(v, int):
            return self.natives['int']
        if isinstance(v, float):
            return self.natives['float']
        if isinstance(v, (str, SStr)):
            return self.natives['str']
        if isinstance(v, bytes):
            return self.natives['bytes']
        if isinstance(v, tuple):
            return self.natives['tuple']
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, OInst):
                return r.cls
            if isinstance(r, OClass):
                return r.meta or self.natives['type']
            if isinstance(r, OList):
                return self.natives['list']
            if isinstance(r, ODict):
                return self.natives['dict']
            if isinstance(r, OSet):
                return self.natives['set']
            if isinstance(r, OFunc):
                return self.natives['function']
            if isinstance(r, OModule):
                return self.natives['module']
            if isinstance(r, OGen):
                return self.natives['generator']
            if isinstance(r, OIter):
                return self.natives['iterator']
        if isinstance(v, Bound):
            return self.natives['method']
        if isinstance(v, Builtin):
            return self.natives['builtin_function']
        if isinstance(v, Prop):
            return self.natives['property']
        if isinstance(v, ClsM):
            return self.natives['classmethod']
        if isinstance(v, StatM):
            return self.natives['staticmethod']
        if isinstance(v, Super):
            return self.natives['super']
        if isinstance(v, Lazy):
            return self.natives['iterator']
        if isinstance(v, DictView):
            return self.natives['dict']
        if isinstance(v, Term):
            ty = term_type(v)
            if ty in ('str', 'int', 'bool'):
                return self.natives[ty]
        return None

    def class_lookup(self, cls, name):
        """Find an attribute along the MRO: (value, owner class) or None."""
        if isinstance(cls, Ite):
            cls = self.resolve(cls)
        if not isinstance(cls, Ref):
            return None
        c = self.get(cls)
        for k in c.mro or (cls,):
            kc = self.get(k)
            if name in kc.attrs:
                v = kc.attrs[name]
                if v is not ABSENT:
                    return v, k
        return None

    def is_subclass(self, cls, base):
        c = self.get(cls)
        return base in (c.mro or (cls,))

    def isinstance_(self, v, cls):
        """bool or condition"""
        cls = self.resolve(cls)
        if isinstance(cls, tuple):
            return disj([self.isinstance_(v, k) for k in cls])
        v = self.resolve(v)
        if isinstance(v, Ite):
            ca, cb = self.isinstance_(v.a, cls), self.isinstance_(v.b, cls)
            return disj([conj([v.c, ca]), conj([neg(v.c), cb])])
        if isinstance(cls, Ref) and isinstance(self.get(cls), OClass):
            t = self.type_of(v)
            if t is None:
                if isinstance(v, Term) and v.op == 'sym' and v.args[1] == 'obj':
                    if self.get(cls).name == 'object':
                        return True
                return Term('isinst', v, cls)
            if isinstance(t, Ite):
                return disj([conj([t.c, self.is_subclass(t.a, cls)]), conj([neg(t.c), self.is_subclass(t.b, cls)])])
            return self.is_subclass(t, cls)
        if isinstance(cls, Term):
            return Term('isinst', v, cls)
        if isinstance(cls, Builtin):
            return False
        raise Unsupported('isinstance with %r' % (cls,))

    def c3(self, ref, bases):
        seqs = [list(self.get(b).mro) for b in bases] + [list(bases)]
        out = [ref]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return tuple(out)
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                self.throw('TypeError', 'Cannot create a consistent method resolution order')
            out.append(cand)
            for s in seqs:
                if s[0] == cand:
                    del s[0]

    def make_class(self, name, bases, attrs, meta, module, native=None):
        bases = tuple(b for b in bases)
        if not bases and name != 'object':
            bases = (self.natives['object'],)
        ref = self.alloc(None)
        if native is None:
            for b in bases:
                n = self.get(b).native
                if n and n not in ('object',):
                    native = 'type' if n == 'plaintype' else n
                    break
        mro = self.c3(ref, bases) if bases else (ref,)
        self.set(ref, OClass(name, bases, mro, dict(attrs), meta, module, native, self.sites()))
        return ref

    # ---- truth / equality -------------------------------------------------------------

    def truth(self, v):
        """bool or condition"""
        v = self.resolve(v)
        if isinstance(v, Ite):
            def side(x, val):
                old = self.st
                self.st = old.assume(v.c, val)
                try:
                    return self.truth(x)
                finally:
                    self.st = State(self.st.heap, old.pc, old.facts, self.st.trace)
            # both sides pure unless instances define __bool__; evaluate by forking in that case
            if self.pure_truth(v):
                return disj([conj([v.c, side(v.a, True)]), conj([neg(v.c), side(v.b, False)])])
            return self.resolve_cond(self.fork(v.c, lambda: self.truth(v.a), lambda: self.truth(v.b)))
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, SStr):
            for p in v.parts:
                if isinstance(p, str) and p:
                    return True
                if isinstance(p, Term) and p.op in ('tbl', 'col', 'qn', 'ct'):
                    return True
            for p in v.parts:
                if isinstance(p, Term) and p.op == 'str' and len(p.args) == 1 and isinstance(p.args[0], Term) and term_type(p.args[0]) == 'int':
                    return True
            return Term('truth', v)
        if isinstance(v, Term):
            if v.op in ('tbl', 'col', 'qn', 'ct', 'maxlen'):
                return True
            if term_type(v) == 'bool':
                return v
            if v.op == 'sym' and v.args[1] == 'obj':
                return True
            return Term('truth', v)
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, OList):
                return self.nonempty(r.items)
            if isinstance(r, (ODict, OSet)):
                conds = []
                for k, x in r.d.values():
                    if isinstance(x, Ite) or x is ABSENT:
                        conds.append(self.present(x))
                    else:
                        return True
                if r.open_ is not None:
                    conds.append(Term('truth', r.open_))
                return disj(conds) if conds else False
            if isinstance(r, OInst):
                for nm in ('__bool__', '__len__'):
                    f = self.class_lookup(r.cls, nm)
                    if f is not None:
                        return self.truth(self.call(self.bind(f[0], v, r.cls), [], {}))
                if '__payload__' in r.attrs:
                    return self.truth(r.attrs['__payload__'])
            return True
        return True

    def pure_truth(self, v):
        if isinstance(v, Ite):
            return self.pure_truth(v.a) and self.pure_truth(v.b)
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, OInst):
                return self.class_lookup(r.cls, '__bool__') is None and self.class_lookup(r.cls, '__len__') is None
        return True

    def resolve_cond(self, v):
        if isinstance(v, Ite):
            return disj([conj([v.c, self.resolve_cond(v.a)]), conj([neg(v.c), self.resolve_cond(v.b)])])
        return v

    def present(self, x):
        if x is ABSENT:
            return False
        if isinstance(x, Ite):
            return disj([conj([x.c, self.present(x.a)]), conj([neg(x.c), self.present(x.b)])])
        return True

    def nonempty(self, items):
        conds = []
        for x in items:
            if isinstance(x, SegOpt):
                conds.append(conj([x.c, self.nonempty(x.items)]))
            elif isinstance(x, SegFor):
                conds.append(Term('atom', 'nonempty', x.loop))
            else:
                return True
        return disj(conds) if conds else False

    def eq(self, a, b):
        """bool or condition for a == b"""
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Ite):
            return self.resolve_cond(self.fork(a.c, lambda: self.eq(a.a, b), lambda: self.eq(a.b, b)))
        if isinstance(b, Ite):
            return self.resolve_cond(self.fork(b.c, lambda: self.eq(a, b.a), lambda: self.eq(a, b.b)))
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            return a == b
        if same(a, b):
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                r = self.get(x)
                if isinstance(r, OInst):
                    f = self.class_lookup(r.cls, '__eq__')
                    if f is not None and isinstance(f[0], Ref):
                        return self.truth(self.call(Bound(f[0], x), [y], {}))
                    if '__payload__' in r.attrs:
                        return self.eq(r.attrs['__payload__'], y)
        if is_const(a) and is_const(b):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = self.get(a), self.get(b)
            if isinstance(ra, OList) and isinstance(rb, OList):
                if any(isinstance(x, (SegOpt, SegFor)) for x in ra.items + rb.items):
                    return Term('atom', 'listeq', self.uid())
                return len(ra.items) == len(rb.items) and conj([self.eq(x, y) for x, y in zip(ra.items, rb.items)])
            if isinstance(ra, ODict) and isinstance(rb, ODict):
                if ra.open_ or rb.open_ or set(ra.d) != set(rb.d):
                    if ra.open_ or rb.open_:
                        return Term('atom', 'dicteq', self.uid())
                    return False
                return conj([self.eq(ra.d[k][1], rb.d[k][1]) for k in ra.d])
            if isinstance(ra, OSet) and isinstance(rb, OSet):
                if ra.open_ or rb.open_:
                    return Term('atom', 'seteq', self.uid())
                return set(ra.d) == set(rb.d)
            return False
        if self.lasting_id(a) and self.lasting_id(b):
            return a == b
        if isinstance(a, (SStr, Term, str)) and isinstance(b, (SStr, Term, str)):
            return self.str_eq(a, b)
        if isinstance(a, Term) or isinstance(b, Term):
            if not isinstance(a, Term):
                a, b = b, a
            if isinstance(b, Ref) or isinstance(b, (Bound, Builtin, tuple)):
                if term_type(a) in ('str', 'int', 'bool'):
                    return False
                return Term('eq', a, b)
            if b is None and term_type(a) in ('str', 'int', 'bool', 'obj', 'key'):
                return False
            if isinstance(b, str) and term_type(a) in ('int', 'bool'):
                return False
            return self.order_eq(a, b)
        if isinstance(a, SStr) or isinstance(b, SStr):
            return False
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a == b
        return False

    def lasting_id(self, t):
        """The identity of a class or None, never shared with something else."""
        return isinstance(t, Term) and t.op == 'hash' and len(t.args) == 2 and t.args[1] == 'id' \
            and (t.args[0] is None or isinstance(t.args[0], Ref) and isinstance(self.get(t.args[0]), OClass))

    def order_eq(self, a, b):
        if isinstance(a, Term) and isinstance(b, Term):
            if a.op in NAME_OPS and b.op in NAME_OPS:
                self.assumptions.add('differently declared tables, columns and content types have different names')
                return False
            if repr(b) < repr(a):
                a, b = b, a
        return Term('eq', a, b)

    def str_eq(self, a, b):
        pa, pb = sparts(a), sparts(b)
        if all(isinstance(p, (str, Term)) for p in pa + pb):
            la = pa[0] if isinstance(pa[0], str) else ''
            lb = pb[0] if isinstance(pb[0], str) else ''
            n = min(len(la), len(lb))
            if la[:n] != lb[:n]:
                return False
            ta = pa[-1] if isinstance(pa[-1], str) else ''
            tb = pb[-1] if isinstance(pb[-1], str) else ''
            n = min(len(ta), len(tb))
            if n and ta[-n:] != tb[-n:]:
                return False
            if all(isinstance(p, str) or self.nameish(p) for p in pa + pb):
                if not (isinstance(a, str) or isinstance(b, str)):
                    self.assumptions.add('differently declared tables, columns and content types have different names')
                    return False
                # literal against a template of names
                return Term('eq', a, b) if not isinstance(a, str) else Term('eq', b, a)
        if isinstance(a, Term) and isinstance(b, Term):
            return self.order_eq(a, b)
        if isinstance(a, str):
            a, b = b, a
        return Term('eq', a, b)

    def nameish(self, p):
        if p.op in NAME_OPS:
            return True
        if p.op in ('str', 'qn', 'strop', 'slice', 'repr'):
            return any(isinstance(x, Term) and self.nameish(x) for x in p.args) or (p.op == 'qn')
        return False

    def is_(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Ite):
            return disj([conj([a.c, self.is_(a.a, b)]), conj([neg(a.c), self.is_(a.b, b)])])
        if isinstance(b, Ite):
            return disj([conj([b.c, self.is_(a, b.a)]), conj([neg(b.c), self.is_(a, b.b)])])
        if same(a, b):
            return True
        if isinstance(a, Term) or isinstance(b, Term):
            if not isinstance(a, Term):
                a, b = b, a
            if b is None and (term_type(a) in ('str', 'int', 'bool', 'obj', 'key')):
                return False
            if isinstance(b, bool):
                if term_type(a) == 'bool':
                    return a if b else neg(a)
                if term_type(a) in ('str', 'int'):
                    return False
            if isinstance(b, Ref) and term_type(a) in ('str', 'int', 'bool'):
                return False
            return Term('is', a, b)
        if type(a) is type(b) and isinstance(a, (str, int, tuple)) and not isinstance(a, bool):
            return a == b
        return False

    # ---- attribute access ------------------------------------------------------------

    def bind(self, v, obj, cls):
        """Bind a class attribute found for obj."""
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, OFunc):
                return Bound(v, obj) if obj is not None else v
            if isinstance(r, OInst):
                g = self.class_lookup(r.cls, '__get__')
                if g is not None:
                    return self.call(self.bind(g[0], v, r.cls), [obj, cls], {})
            return v
        if isinstance(v, Builtin):
            return Bound(v, obj) if (obj is not None and getattr(v.fn, 'is_method', False)) else v
        if isinstance(v, Prop):
            if obj is None:
                return v
            return self.call(v.fget, [obj], {})
        if isinstance(v, ClsM):
            return self.bind_to_class(v.f, cls)
        if isinstance(v, StatM):
            return v.f
        return v

    def bind_to_class(self, f, cls):
        if isinstance(f, (Prop,)):
            return self.call(f.fget, [cls], {})
        return Bound(f, cls)

    def is_data_descriptor(self, v):
        if isinstance(v, Prop):
            return True
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, OInst):
                return self.class_lookup(r.cls, '__set__') is not None
        return False

    MISSING = object()

    def getattr(self, v, name, default=MISSING):
        v = self.resolve(v)
        if isinstance(v, Ite):
            return self.case(v, lambda u: self.getattr(u, name, default))
        if default is not Interp.MISSING and self.computed_attr(v, name):
            # an AttributeError raised while computing the attribute counts as absence
            return self.catch('AttributeError', lambda: self.getattr(v, name), lambda: default)
        r = self.getattr_raw(v, name)
        if r is ABSENT or (isinstance(r, Ite) and self.has_absent(r)):
            return self.case(r, lambda u: self.attr_result(u, v, name, default))
        return r

    def has_absent(self, v):
        if isinstance(v, Ite):
            return self.has_absent(v.a) or self.has_absent(v.b)
        return v is ABSENT

    def attr_result(self, u, v, name, default):
        if u is ABSENT:
            t = self.type_of(v)
            if t is not None and isinstance(t, Ref):
                g = self.class_lookup(t, '__getattr__')
                if g is not None:
                    if default is Interp.MISSING:
                        return self.call(self.bind(g[0], v, t), [name], {})
                    return self.attr_via_getattr(g, v, t, name, default)
            if default is not Interp.MISSING:
                return default
            self.throw('AttributeError', "%s has no attribute '%s'" % (self.describe(v), name))
        return u

    def attr_via_getattr(self, g, v, t, name, default):
        return self.catch('AttributeError', lambda: self.call(self.bind(g[0], v, t), [name], {}), lambda: default)

    def computed_attr(self, v, name):
        t = self.resolve(self.type_of(v)) if isinstance(v, Ref) else None
        if isinstance(t, Ref):
            f = self.class_lookup(t, name)
            if f is not None:
                return isinstance(f[0], Prop) or isinstance(self.rec(f[0]), OInst)
        return False

    def catch(self, clsname, fn, handler):
        saved = self.abrupt
        self.abrupt = []
        frame, depth, node = self.frame, len(self.stack), self.node
        res = []
        try:
            x = fn()
            res.append((self.st, x))
        except Dead:
            pass
        self.frame, self.node = frame, node
        del self.stack[depth:]
        mine = self.abrupt
        self.abrupt = saved
        for e in mine:
            if e[0] == 'raise':
                self.st = e[2]
                if self.exc_matches(e[3], self.natives[clsname]) is True:
                    try:
                        v = handler()
                        res.append((self.st, v))
                    except Dead:
                        pass
                    continue
            self.abrupt.append(e)
        return self.join(res)

    def describe(self, v):
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, OClass):
                return "type object '%s'" % r.name
            if isinstance(r, OInst):
                c = self.resolve(r.cls)
                return "'%s' object" % (self.get(c).name if isinstance(c, Ref) else '?')
            if isinstance(r, OModule):
                return "module '%s'" % r.name
        t = self.type_of(v)
        return "'%s' object" % (self.get(t).name if isinstance(t, Ref) else '?')

    def getattr_raw(self, v, name):
        """Attribute value, or ABSENT (possibly inside an Ite)."""
        from . import builtins_ as b
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, OInst):
                cls = self.resolve(r.cls)
                if isinstance(cls, Ite):
                    return self.fork(cls.c, lambda: self.getattr_raw(v, name), lambda: self.getattr_raw(v, name))
                if name == '__class__':
                    return cls
                if name == '__dict__':
                    return DictView(v)
                f = self.class_lookup(cls, name)
                if f is not None and self.is_data_descriptor(f[0]):
                    return self.bind_desc(f[0], v, cls, name)
                if name in r.attrs:
                    a = self.resolve(r.attrs[name])
                    if not self.has_absent(a):
                        return a
                    alt = self.bind(f[0], v, cls) if f is not None else ABSENT
                    return self.subst_absent(a, alt)
                if f is not None:
                    return self.bind(f[0], v, cls)
                if '__payload__' in r.attrs:
                    return b.native_attr(self, r.attrs['__payload__'], name)
                n = b.native_attr(self, v, name)
                if n is not ABSENT:
                    return n
                return self.stub_missing(cls, name)
            if isinstance(r, OClass):
                return self.class_getattr(v, r, name)
            if isinstance(r, OModule):
                if name == '__dict__':
                    return DictView(v)
                if name == '__name__':
                    return r.name
                if name in r.attrs:
                    return self.resolve(r.attrs[name])
                sub = self.import_module(r.name + '.' + name, optional=True)
                if sub is not None:
                    return sub
                return self.module_missing(r, name)
            if isinstance(r, OFunc):
                if name in r.attrs:
                    return self.resolve(r.attrs[name])
                if name in ('__name__', '__qualname__'):
                    return r.name
                if name == '__module__':
                    return r.module
                if name == '__doc__':
                    d = ast.get_docstring(r.node) if not isinstance(r.node, ast.Lambda) else None
                    return d
                if name == '__dict__':
                    return DictView(v)
                if name == '__get__':
                    fv = v
                    return Builtin('__get__', lambda it, args, kw: Bound(fv, args[0]) if args[0] is not None else fv)
                if name == '__call__':
                    return v
                return ABSENT
            return b.native_attr(self, v, name)
        if isinstance(v, Super):
            return self.super_getattr(v, name)
        if isinstance(v, Bound):
            if name == '__self__':
                return v.self_
            if name == '__func__':
                return v.func
            if isinstance(v.func, Ref):
                return self.getattr_raw(v.func, name)
            if name == '__name__':
                return v.func.name
            return ABSENT
        return b.native_attr(self, v, name)

    def bind_desc(self, d, obj, cls, name):
        if isinstance(d, Prop):
            return self.call(d.fget, [obj], {})
        r = self.get(d)
        g = self.class_lookup(r.cls, '__get__')
        if g is not None:
            return self.call(self.bind(g[0], d, r.cls), [obj, cls], {})
        # __set__ only: the instance dictionary wins
        inst = self.rec(obj, OInst)
        if inst is not None and name in inst.attrs:
            return self.subst_absent(self.resolve(inst.attrs[name]), d)
        return d

    def subst_absent(self, a, alt):
        if a is ABSENT:
            return alt
        if isinstance(a, Ite):
            return mk_ite(a.c, self.subst_absent(a.a, alt), self.subst_absent(a.b, alt))
        return a

    def class_getattr(self, v, r, name):
        from . import builtins_ as b
        if name == '__name__' or name == '__qualname__':
            return r.attrs.get(name, r.name)
        if name == '__module__':
            return r.attrs.get('__module__', r.module)
        if name == '__mro__':
            return r.mro
        if name == '__bases__':
            return r.bases
        if name == '__dict__':
            return DictView(v)
        if name == '__class__':
            return r.meta or self.natives['type']
        if name == '__doc__':
            return r.attrs.get('__doc__')
        meta = r.meta or self.natives['type']
        m = self.class_lookup(meta, name)
        if m is not None and self.is_data_descriptor(m[0]):
            return self.bind_desc(m[0], v, meta, name)
        f = self.class_lookup(v, name)
        if f is not None:
            x = f[0]
            alt = ABSENT
            if isinstance(x, Ite) and self.has_absent(x):
                x = self.subst_absent(x, alt)
                return self.case(x, lambda u: u if u is ABSENT else self.bind(u, None, v))
            return self.case(x, lambda u: self.bind(u, None, v))
        if m is not None:
            return self.bind(m[0], v, meta)
        return b.class_native_attr(self, v, r, name)

    def super_getattr(self, s, name):
        from . import builtins_ as b
        obj = s.obj
        o = self.rec(obj)
        if isinstance(o, OClass) and s.cls in o.mro:
            mro = o.mro
            start = obj
            is_cls = True
        else:
            start = self.type_of(obj)
            start = self.resolve(start)
            mro = self.get(start).mro
            is_cls = False
        i = mro.index(s.cls)
        for k in mro[i + 1:]:
            kc = self.get(k)
            if name in kc.attrs and kc.attrs[name] is not ABSENT:
                f = kc.attrs[name]
                if name == '__new__':
                    return f.f if isinstance(f, StatM) else f
                if is_cls:
                    if isinstance(f, ClsM):
                        return Bound(f.f, start)
                    if isinstance(f, StatM):
                        return f.f
                    return f
                return self.bind(f, obj, start)
        if is_cls:
            return b.class_native_attr(self, obj, o, name)
        n = b.native_super_attr(self, obj, name)
        return n

    def stub_missing(self, cls, name):
        """An attribute a model of the framework does not define: absent unless the real class may have it."""
        if name.startswith('__') and name.endswith('__'):
            return ABSENT
        known = self.class_lookup(cls, '__vp_open__')
        if known is not None:
            absent = self.class_lookup(cls, '__vp_absent__')
            if absent is not None and name in absent[0]:
                return ABSENT
            ids = self.config.get('real_names')
            if ids is not None and name in ids(known[0]) and self.real_attr(cls, name):
                raise Unsupported("attribute '%s' of %s is not modelled" % (name, self.get(cls).name))
        return ABSENT

    def real_attr(self, cls, name):
        """Whether the library's class behind the model of a class may have an attribute."""
        found = [realnames.class_names(str(k.module), k.name) for k in map(self.get, self.get(cls).mro or (cls,))]
        found = [own for own in found if own is not None]
        return not found or any(name in own for own in found)

    def module_missing(self, r, name):
        if '__vp_absent__' in r.attrs and name in r.attrs['__vp_absent__']:
            return ABSENT
        if '__vp_open__' in r.attrs:
            ids = self.config.get('real_names')
            if ids is None or name in ids(r.attrs['__vp_open__']):
                return sym('%s.%s' % (r.name, name), 'obj')
            return ABSENT
        return ABSENT

    def setattr(self, v, name, val):
        v = self.resolve(v)
        if isinstance(v, Ite):
            return self.case(v, lambda u: self.setattr(u, name, val))
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, OInst):
                cls = self.resolve(r.cls)
                f = self.class_lookup(cls, name)
                if f is not None:
                    d = f[0]
                    if isinstance(d, Prop):
                        if d.fset is None:
                            self.throw('AttributeError', "can't set attribute '%s'" % name)
                        self.call(d.fset, [v, val], {})
                        return
                    if isinstance(d, Ref) and isinstance(self.get(d), OInst):
                        s = self.class_lookup(self.get(d).cls, '__set__')
                        if s is not None:
                            self.call(self.bind(s[0], d, self.get(d).cls), [v, val], {})
                            return
                sa = self.class_lookup(cls, '__setattr__')
                if sa is not None and isinstance(sa[0], Ref):
                    self.call(Bound(sa[0], v), [name, val], {})
                    return
                self.set(v, self.get(v).put(name, val))
                return
            if isinstance(r, OClass) and r.meta is not None:
                f = self.class_lookup(r.meta, name)
                if f is not None and isinstance(f[0], Prop) and f[0].fset is not None:
                    self.call(f[0].fset, [v, val], {})
                    return
            if isinstance(r, (OClass, OModule, OFunc)):
                self.set(v, r.put(name, val))
                return
            self.throw('AttributeError', "cannot set attribute '%s'" % name)
        if isinstance(v, Term):
            self.event('setattr', [v, name, val])
            return
        if isinstance(v, Bound) and isinstance(v.func, Ref):
            self.throw('AttributeError', "'method' object has no attribute '%s'" % name)
        self.throw('AttributeError', "cannot set attribute '%s' on %s" % (name, self.describe(v)))

    def delattr(self, v, name):
        v = self.resolve(v)
        if isinstance(v, Ite):
            return self.case(v, lambda u: self.delattr(u, name))
        r = self.rec(v)
        if isinstance(r, (OInst, OClass, OModule, OFunc)):
            if name not in r.attrs:
                self.throw('AttributeError', name)
            self.set(v, r.drop(name))
            return
        raise Unsupported('delattr')

    # ---- names ----------------------------------------------------------------------

    def lookup(self, name):
        addr = self.frame
        heap = self.st.heap
        first = True
        while addr is not None:
            fr = heap[addr]
            if fr.kind == 'class' and not first:
                addr = fr.parent
                continue
            if fr.kind == 'func' and first and fr.globals_ and name in fr.globals_[0]:
                # declared global / nonlocal
                pass
            elif name in fr.vars:
                v = self.resolve(fr.vars[name])
                if self.has_absent(v):
                    if fr.kind in ('func', 'comp'):
                        return self.case(v, lambda u: u if u is not ABSENT else self.throw('UnboundLocalError', name))
                    alt = self.builtin_name(name)
                    return self.case(v, lambda u: u if u is not ABSENT else (alt if alt is not ABSENT else self.throw('NameError', name)))
                return v
            elif fr.kind == 'func' and fr.globals_ and name in fr.globals_[1]:
                # assigned somewhere in this function, but not yet
                self.throw('UnboundLocalError', "local variable '%s' referenced before assignment" % name)
            addr = fr.parent
            first = False
        v = self.builtin_name(name)
        if v is ABSENT:
            self.throw('NameError', "name '%s' is not defined" % name)
        return v

    def builtin_name(self, name):
        v = self.builtins.get(name, ABSENT)
        if v is ABSENT and name in self.natives:
            v = self.natives[name]
        return v

    def module_frame(self, addr):
        while True:
            fr = self.st.heap[addr]
            if fr.kind == 'module':
                return addr
            addr = fr.parent

    def assign_name(self, name, v):
        addr = self.frame
        fr = self.st.heap[addr]
        while fr.kind == 'comp':
            # only walrus targets reach here
            addr = fr.parent
            fr = self.st.heap[addr]
        self.assign_in(addr, name, v)

    def assign_in(self, addr, name, v):
        fr = self.st.heap[addr]
        if fr.globals_ and name in fr.globals_[0]:
            how = fr.globals_[0][name]
            if how == 'global':
                addr = self.module_frame(addr)
            else:
                a = fr.parent
                while a is not None:
                    f2 = self.st.heap[a]
                    if f2.kind == 'func' and (name in f2.vars or (f2.globals_ and name in f2.globals_[1])):
                        break
                    a = f2.parent
                if a is None:
                    raise Unsupported('nonlocal %s' % name)
                addr = a
            fr = self.st.heap[addr]
        self.st.heap[addr] = fr.put(name, v)
        if fr.kind == 'module':
            m = self.modules[fr.module_name if hasattr(fr, 'module_name') else self.frame_module[addr]]
            self.set(m, self.get(m).put(name, v))

    # ---- modules ---------------------------------------------------------------------

    frame_module = None

    def import_module(self, name, optional=False):
        if name in self.modules:
            m = self.modules[name]
            if m.addr in self.st.heap:
                return m
        if self.frame_module is None:
            self.frame_module = {}
        found = self.finder(name)
        if found is None:
            if optional:
                return None
            self.throw('ModuleNotFoundError', "No module named '%s'" % name)
        if found == 'opaque':
            return None if optional else sym('module:' + name, 'obj')
        path, rel, is_pkg, tracked = found
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
            if name in self.modules and self.modules[name].addr in self.st.heap:
                return self.modules[name]
        else:
            parent = None
        src = load_source(path, rel, tracked)
        ref = self.alloc(OModule(name, {'__name__': name, '__file__': path}, path))
        self.modules[name] = ref
        fr = self.alloc(OFrame({'__name__': name, '__file__': path}, None, 'module', src.rel, '<module>'))
        self.frame_module[fr.addr] = name
        self.modinfo[fr.addr] = (name, is_pkg, src)
        saved = (self.frame, self.node)
        self.stack.append((self.frame_file() or ('', '')) + (self.node,))
        self.frame = fr.addr
        try:
            self.exec_block(src.tree.body)
        except Dead:
            self.modules.pop(name, None)
            raise
        finally:
            self.frame, self.node = saved
            self.stack.pop()
        if parent is not None and isinstance(parent, Ref):
            nm = name.rsplit('.', 1)[1]
            self.set(parent, self.get(parent).put(nm, ref))
            pname = name.rsplit('.', 1)[0]
            for a, n in self.frame_module.items():
                if n == pname:
                    f2 = self.st.heap.get(a)
                    if f2 is not None and nm not in f2.vars:
                        self.st.heap[a] = f2.put(nm, ref)
        return ref

    modinfo = None

    def current_module(self):
        return self.modinfo[self.module_frame(self.frame)]

    def resolve_relative(self, module, level):
        name, is_pkg, _ = self.current_module()
        parts = name.split('.')
        if not is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:len(parts) - (level - 1)]
        if module:
            parts = parts + module.split('.')
        return '.'.join(parts)

    # ---- statements ----------------------------------------------------------------

    def exec_block(self, stmts):
        for s in stmts:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.node = s
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s:%d' % (type(s).__name__, self.frame_file()[0], s.lineno))
        m(s)

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def st_Pass(self, s):
        pass

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            new = self.binop(s.op, old, self.ev(s.value), inplace=True)
            self.assign(t, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(s.op, old, self.ev(s.value), inplace=True))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            old = self.getitem(o, k)
            self.setitem(o, k, self.binop(s.op, old, self.ev(s.value), inplace=True))
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev_index(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, elts, v):
        v = self.resolve(v)
        if isinstance(v, Ite):
            def go(u):
                self.unpack(elts, u)
                return None
            self.case(v, go)
            return
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Term):
            for i, e in enumerate(elts):
                self.assign(e, Term('item', v, i))
            return
        items = self.concrete_items(v)
        if items is None:
            for i, e in enumerate(elts):
                self.assign(e, Term('item', v, i))
            return
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                self.throw('ValueError', 'not enough values to unpack')
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x)
            self.assign(elts[i].value, self.new_list(items[i:len(items) - after]))
            for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                self.assign(e, x)
            return
        if len(items) != len(elts):
            self.throw('ValueError', 'wrong number of values to unpack')
        for e, x in zip(elts, items):
            self.assign(e, x)

    def concrete_items(self, v):
        """List of items if the collection's shape is known, else None."""
        v = self.resolve(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        r = self.rec(v)
        if isinstance(r, OInst) and '__payload__' in r.attrs:
            return self.concrete_items(r.attrs['__payload__'])
        if isinstance(r, OList):
            if any(isinstance(x, (SegOpt, SegFor)) for x in r.items):
                return None
            return list(r.items)
        if isinstance(r, (ODict, OSet)):
            if r.open_ is not None or any(isinstance(x, Ite) and self.has_absent(x) for k, x in r.d.values()):
                return None
            return [k for k, x in r.d.values()]
        if isinstance(r, OIter):
            if isinstance(r.pos, int):
                out = list(r.items[r.pos:])
                self.set(v, OIter(r.items, len(r.items)))
                return out
            return None
        if isinstance(r, OInst) and self.class_lookup(r.cls, '__iter__') is None and self.class_lookup(r.cls, '__getitem__') is None:
            self.throw('TypeError', "%s is not iterable" % self.describe(v))
        if isinstance(v, (Lazy,)) or isinstance(r, (OGen, OInst)):
            lst = self.new_list(())
            self.iterate(v, lambda x: self.list_append(lst, x))
            items = self.get(lst).items
            if any(isinstance(x, (SegOpt, SegFor)) for x in items):
                return None
            return list(items)
        return None

    def list_append(self, lst, x):
        self.set(lst, OList(self.get(lst).items + (x,)))

    def to_list(self, v):
        """Materialise an iterable as a new abstract list."""
        v = self.resolve(v)
        r = self.rec(v)
        if isinstance(r, OList):
            return self.new_list(r.items)
        if isinstance(v, tuple):
            return self.new_list(v)
        lst = self.new_list(())
        self.iterate(v, lambda x: self.list_append(lst, x))
        return lst

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr = self.st.heap[self.frame]
                if t.id not in fr.vars:
                    self.throw('NameError', t.id)
                self.st.heap[self.frame] = fr.drop(t.id)
                if fr.kind == 'module':
                    m = self.modules[self.frame_module[self.frame]]
                    self.set(m, self.get(m).drop(t.id))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.ev_index(t.slice))
            else:
                raise Unsupported('del')

    def st_Global(self, s):
        fr = self.st.heap[self.frame]
        if fr.kind == 'func':
            d = dict(fr.globals_[0])
            for n in s.names:
                d[n] = 'global'
            self.st.heap[self.frame] = OFrame(fr.vars, fr.parent, fr.kind, fr.module, fr.func, (d, fr.globals_[1]))

    def st_Nonlocal(self, s):
        fr = self.st.heap[self.frame]
        d = dict(fr.globals_[0])
        for n in s.names:
            d[n] = 'nonlocal'
        self.st.heap[self.frame] = OFrame(fr.vars, fr.parent, fr.kind, fr.module, fr.func, (d, fr.globals_[1]))

    def st_If(self, s):
        c = self.truth(self.ev(s.test))
        self.fork(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def st_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.fork(c, lambda: None, lambda: self.throw('AssertionError'))

    def st_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.abrupt.append(('return', self.func_frame(), self.st, v))
        raise Dead()

    def func_frame(self):
        addr = self.frame
        while self.st.heap[addr].kind != 'func':
            addr = self.st.heap[addr].parent
        return addr

    def st_Raise(self, s):
        if s.exc is None:
            cur = self.current_exc[-1] if self.current_exc else None
            if cur is None:
                self.throw('RuntimeError', 'No active exception to reraise')
            self.raise_(cur)
        e = self.ev(s.exc)
        if s.cause is not None:
            self.ev(s.cause)
        self.case(e, self.raise_value)

    def raise_value(self, e):
        r = self.rec(e)
        if isinstance(r, OClass):
            if not self.is_subclass(e, self.natives['BaseException']):
                self.throw('TypeError', 'exceptions must derive from BaseException')
            e = self.call(e, [], {})
        elif isinstance(r, OInst):
            if not self.is_subclass(r.cls, self.natives['BaseException']):
                self.throw('TypeError', 'exceptions must derive from BaseException')
        elif not isinstance(e, Term):
            self.throw('TypeError', 'exceptions must derive from BaseException')
        self.raise_(e)

    current_exc = ()

    def exc_matches(self, exc, cls):
        """bool or condition: does the exception match the handler class?"""
        if isinstance(cls, tuple):
            return disj([self.exc_matches(exc, k) for k in cls])
        return self.isinstance_(exc, cls)

    def st_Try(self, s):
        saved = self.abrupt
        collect = [] if s.finalbody else saved
        self.abrupt = []
        frame, depth = self.frame, len(self.stack)
        normal = []
        body_ok = True
        try:
            self.exec_block(s.body)
        except Dead:
            body_ok = False
        body_ab = self.abrupt
        st_ok = self.st
        self.frame = frame
        del self.stack[depth:]
        self.abrupt = collect
        raised = []
        for e in body_ab:
            if e[0] == 'raise' and s.handlers:
                raised.append(e)
            else:
                collect.append(e)
        if body_ok:
            self.st = st_ok
            try:
                self.exec_block(s.orelse)
                normal.append((self.st, None))
            except Dead:
                pass
            self.frame = frame
            del self.stack[depth:]
        for h in s.handlers:
            if not raised:
                break
            hit = []
            rest = []
            for kind, tgt, st, exc in raised:
                self.st = st
                self.frame = frame
                del self.stack[depth:]
                if h.type is None:
                    c = True
                else:
                    self.node = h
                    hc = self.ev(h.type)
                    c = self.exc_matches(exc, hc)
                d = self.decide(c)
                if d is True:
                    hit.append((self.st, exc))
                elif d is False:
                    rest.append((kind, tgt, self.st, exc))
                else:
                    b = self.st
                    hit.append((b.assume(c, True), exc))
                    rest.append((kind, tgt, b.assume(c, False), exc))
            raised = rest
            if hit:
                self.st, exc = self.merge(hit) if len(hit) > 1 else hit[0]
                self.frame = frame
                del self.stack[depth:]
                self.current_exc = tuple(self.current_exc) + (exc,)
                try:
                    if h.name:
                        self.assign_name(h.name, exc)
                    self.exec_block(h.body)
                    if h.name:
                        fr = self.st.heap[self.frame]
                        if h.name in fr.vars:
                            self.st.heap[self.frame] = fr.drop(h.name)
                    normal.append((self.st, None))
                except Dead:
                    pass
                self.current_exc = self.current_exc[:-1]
                self.frame = frame
                del self.stack[depth:]
        collect.extend(raised)
        if s.finalbody:
            self.abrupt = saved
            out = []
            if normal:
                st, _ = self.merge(normal) if len(normal) > 1 else normal[0]
                self.st = st
                try:
                    self.exec_block(s.finalbody)
                    out.append((self.st, None))
                except Dead:
                    pass
                self.frame = frame
                del self.stack[depth:]
            groups = {}
            for kind, tgt, st, v in collect:
                groups.setdefault((kind, tgt, self.exc_key(kind, v)), []).append((st, v))
            for (kind, tgt, _), lst in groups.items():
                st, v = self.merge(lst) if len(lst) > 1 else lst[0]
                self.st = st
                try:
                    self.exec_block(s.finalbody)
                    self.abrupt.append((kind, tgt, self.st, v))
                except Dead:
                    pass
                self.frame = frame
                del self.stack[depth:]
            normal = out
        self.join(normal)

    st_TryStar = st_Try

    def exc_key(self, kind, v):
        if kind == 'raise' and isinstance(v, Ref):
            return v.addr
        return None

    def st_With(self, s):
        self.with_items(list(s.items), s.body)

    def with_items(self, items, body):
        if not items:
            self.exec_block(body)
            return
        it = items[0]
        cm = self.ev(it.context_expr)

        def inner(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            self.with_items(items[1:], body)
        self.run_with(cm, inner)

    def run_with(self, cm, inner):
        cm = self.resolve(cm)
        if isinstance(cm, Ite):
            self.case(cm, lambda u: self.run_with(u, inner))
            return
        r = self.rec(cm)
        frame = self.frame
        if isinstance(r, OInst) and '__gen__' in r.attrs:
            gen = self.get(r.attrs['__gen__'])
            count = [0]

            def on_yield(v):
                f2, d2 = self.frame, len(self.stack)
                self.frame = frame
                count[0] += 1
                try:
                    inner(v)
                finally:
                    self.frame = f2
                    del self.stack[d2:]
                return None
            gen.run(on_yield)
            self.frame = frame
            return
        if isinstance(cm, Term):
            self.event('enter', [cm])
            inner(Term('entered', cm))
            self.event('exit', [cm])
            return
        enter = self.getattr(self.type_of(cm), '__enter__')
        v = self.call(enter, [cm], {})
        saved = self.abrupt
        self.abrupt = []
        depth = len(self.stack)
        normal = []
        ok = True
        try:
            inner(v)
        except Dead:
            ok = False
        ab = self.abrupt
        self.abrupt = saved
        self.frame = frame
        del self.stack[depth:]
        exit_ = self.class_lookup(self.type_of(cm), '__exit__')

        def do_exit(a, b, c):
            return self.call(self.bind(exit_[0], cm, self.type_of(cm)), [a, b, c], {})
        if ok:
            try:
                do_exit(None, None, None)
                normal.append((self.st, None))
            except Dead:
                pass
            self.frame = frame
        groups = {}
        for kind, tgt, st, val in ab:
            groups.setdefault((kind, tgt, self.exc_key(kind, val)), []).append((st, val))
        for (kind, tgt, _), lst in groups.items():
            st, val = self.merge(lst) if len(lst) > 1 else lst[0]
            self.st = st
            self.frame = frame
            del self.stack[depth:]
            try:
                if kind == 'raise':
                    x = do_exit(self.type_of(val) or val, val, None)
                    c = self.truth(x)
                    d = self.decide(c)
                    if d is True:
                        normal.append((self.st, None))
                    elif d is False:
                        self.abrupt.append((kind, tgt, self.st, val))
                    else:
                        b = self.st
                        normal.append((b.assume(c, True), None))
                        self.abrupt.append((kind, tgt, b.assume(c, False), val))
                else:
                    do_exit(None, None, None)
                    self.abrupt.append((kind, tgt, self.st, val))
            except Dead:
                pass
        self.frame = frame
        del self.stack[depth:]
        self.join(normal)

    # ---- loops -----------------------------------------------------------------------

    def st_Break(self, s):
        self.abrupt.append(('break', self.loop_ids[-1], self.st, None))
        raise Dead()

    def st_Continue(self, s):
        self.abrupt.append(('continue', self.loop_ids[-1], self.st, None))
        raise Dead()

    loop_ids = ()

    def in_loop(self, lid, fn):
        """Run fn as one loop body; joins normal end and continue.  Raises Dead if neither."""
        saved_ids = self.loop_ids
        self.loop_ids = tuple(saved_ids) + (lid,)
        saved = self.abrupt
        self.abrupt = []
        frame, depth, node = self.frame, len(self.stack), self.node
        res = []
        try:
            fn()
            res.append((self.st, None))
        except Dead:
            pass
        mine = self.abrupt
        self.abrupt = saved
        self.loop_ids = saved_ids
        self.frame, self.node = frame, node
        del self.stack[depth:]
        for e in mine:
            if e[0] == 'continue' and e[1] == lid:
                res.append((e[2], None))
            else:
                self.abrupt.append(e)
        self.join(res)

    def take_breaks(self, lid):
        out = [(e[2], None) for e in self.abrupt if e[0] == 'break' and e[1] == lid]
        if out:
            self.abrupt = [e for e in self.abrupt if not (e[0] == 'break' and e[1] == lid)]
        return out

    def st_For(self, s):
        itv = self.ev(s.iter)
        lid = ('loop', self.uid())
        saved = self.abrupt
        self.abrupt = []
        frame, depth = self.frame, len(self.stack)

        def body(x):
            f2, d2 = self.frame, len(self.stack)
            self.frame = frame

            def one():
                self.assign(s.target, x)
                self.exec_block(s.body)
            try:
                self.in_loop(lid, one)
            finally:
                self.frame = f2
                del self.stack[d2:]
        exits = []
        try:
            self.iterate(itv, body, site=s)
            self.frame = frame
            if s.orelse:
                self.exec_block(s.orelse)
            exits.append((self.st, None))
        except Dead:
            pass
        self.frame = frame
        del self.stack[depth:]
        exits.extend(self.take_breaks(lid))
        mine = self.abrupt
        self.abrupt = saved
        self.abrupt.extend(mine)
        self.join(exits)

    def st_While(self, s):
        lid = ('loop', self.uid())
        saved = self.abrupt
        self.abrupt = []
        frame, depth = self.frame, len(self.stack)
        exits = []
        always = isinstance(s.test, ast.Constant) and bool(s.test.value)
        n = 0
        star = False
        try:
            while True:
                head = self.st.copy()
                nab = len(self.abrupt)
                c = self.decide(self.truth(self.ev(s.test)))
                if c is None:
                    self.st = head
                    del self.abrupt[nab:]
                    star = True
                    break
                if c is False:
                    self.exec_block(s.orelse)
                    exits.append((self.st, None))
                    break
                n += 1
                try:
                    self.in_loop(lid, lambda: self.exec_block(s.body))
                except Dead:
                    break
                new = self.abrupt[nab:]
                if new or n > 80 or self.st.trace is not head.trace or self.st.pc != head.pc:
                    if not always and (n <= 80 and self.ends_here(s.test) or n <= 400 and self.advances(s.test, head)):
                        continue
                    # unknown number of iterations: summarise from the loop head
                    self.st = head
                    del self.abrupt[nab:]
                    star = True
                    break
            if star:
                def guard():
                    return self.truth(self.ev(s.test))

                def body():
                    self.in_loop(lid, lambda: self.exec_block(s.body))
                self.star_loop('while', body, s, guard=guard)
                self.exec_block(s.orelse)
                exits.append((self.st, None))
        except Dead:
            pass
        self.frame = frame
        del self.stack[depth:]
        exits.extend(self.take_breaks(lid))
        mine = self.abrupt
        self.abrupt = saved
        self.abrupt.extend(mine)
        self.join(exits)

    def advances(self, test, head):
        """A number or a list length that the loop condition looks at is known and has changed since the loop head."""
        def size(v):
            if isinstance(v, int) and not isinstance(v, bool):
                return v
            r = self.st.heap.get(v.addr) if isinstance(v, Ref) else None
            if isinstance(r, OList) and not any(isinstance(i, (SegOpt, SegFor)) for i in r.items):
                return len(r.items)

        here, nab = self.st, len(self.abrupt)
        seen = []
        try:
            for st in (head, here):
                self.st = st.copy()
                if self.decide(self.truth(self.ev(test))) is None:
                    return False
                seen.append([size(self.ev(n)) for n in ast.walk(test) if isinstance(n, ast.Name)])
        except Dead:
            return False
        finally:
            self.st = here
            del self.abrupt[nab:]
        return any(a is not None and b is not None and a != b for a, b in zip(*seen))

    def ends_here(self, test):
        """The loop condition is known to be false now (state unchanged)."""
        here, nab = self.st, len(self.abrupt)
        self.st = here.copy()
        try:
            return self.decide(self.truth(self.ev(test))) is False
        except Dead:
            return False
        finally:
            self.st = here
            del self.abrupt[nab:]

    def star_loop(self, info, body, site, guard=None, src=None):
        """Unknown number of iterations.  Leaves self.st as the state after normal exhaustion
        (or raises Dead); exits from inside the body stay in self.abrupt."""
        self.loops += 1
        lid = self.uid()
        start = self.st
        havoc = {}
        nab = len(self.abrupt)
        frame, depth = self.frame, len(self.stack)
        star = None
        once = False
        for attempt in range(12):
            del self.abrupt[nab:]
            self.frame = frame
            del self.stack[depth:]
            head = State(dict(start.heap), start.pc, start.facts, start.trace)
            segs = {}
            for addr, what in havoc.items():
                head.heap[addr] = self.widen(head.heap[addr], what, lid, addr, segs)
            f = self.frame_file()
            star = StarEv(lid, (info, src), (f[0] if f else '', getattr(site, 'lineno', 0), f[1] if f else ''))
            head.trace = TNode(head.trace, star)
            mark = head.trace
            headheap = dict(head.heap)
            self.st = head
            ended = False
            if guard is not None:
                c = guard()
                d = self.decide(c)
                base = self.st
                if d is None:
                    exit_state = base.assume(c, False)
                    self.st = base.assume(c, True)
                elif d is True:
                    exit_state = None
                else:
                    exit_state = base
                    ended = True
            else:
                c = Term('atom', 'nonempty', src.args[0] if src.op == 'seg' else src) if once else Term('more', lid)
                exit_state = head.assume(c, False)
                self.st = head.assume(c, True)
            cont = None
            if not ended:
                try:
                    body()
                    cont = self.st
                except Dead:
                    cont = None
            grown = False
            if cont is not None:
                grown = self.compare(headheap, cont.heap, havoc)
            if not grown:
                if cont is None and guard is None and isinstance(src, Term) and src.op not in ('zip', 'range') and not once:
                    # every way through the body leaves the loop: it is entered iff there is an element
                    once = True
                    havoc = {}
                    continue
                break
        else:
            raise Unsupported('loop does not stabilise at line %s' % getattr(site, 'lineno', '?'))
        if cont is not None:
            star.body = trace_list(cont.trace, mark)
            for addr, seg in segs.items():
                h, n = headheap[addr], cont.heap[addr]
                if isinstance(n, OList):
                    seg.items = n.items[len(h.items):]
            if segs:
                made = {a: r for a, r in cont.heap.items() if a not in headheap}
                self.seg_heaps[lid] = made
                if exit_state is not None:
                    exit_state = exit_state.copy()
                    for a, r in made.items():
                        exit_state.heap.setdefault(a, r)
        else:
            star.body = None     # no complete iteration is possible
        if guard is not None and cont is not None and exit_state is not None and uses_loop(c, lid):
            # the loop variables decide when it ends: keep what the last iteration established
            self.after_last(lid, guard, start, cont, frame, depth)
            return
        if exit_state is None:
            raise Dead()
        self.st = exit_state
        self.frame = frame
        del self.stack[depth:]

    def after_last(self, lid, guard, start, cont, frame, depth):
        looped = Term('atom', 'looped', lid)
        res = []
        for val, st in ((False, start), (True, cont)):
            self.frame = frame
            del self.stack[depth:]
            self.st = st.copy().assume(looped, val)
            try:
                c = guard()
            except Dead:
                continue
            d = self.decide(c)
            if d is True:
                continue
            res.append((self.st if d is False else self.st.assume(c, False), None))
        self.frame = frame
        del self.stack[depth:]
        self.join(res)

    def instance_of(self, seg):
        """Items of one iteration of an earlier loop, with their own copies of the objects made in it."""
        made = self.seg_heaps.get(seg.loop) if not isinstance(seg.loop, tuple) else None
        if not made:
            return seg.items
        new = {}

        def val(v):
            if isinstance(v, Ref):
                if v.addr not in made:
                    return v
                if v.addr not in new:
                    r = made[v.addr]
                    if not isinstance(r, (OInst, OList, ODict, OSet)):
                        self.st.heap.setdefault(v.addr, r)
                        return v
                    new[v.addr] = self.alloc(r)
                    ref = new[v.addr]
                    if isinstance(r, OInst):
                        r = OInst(r.cls, {k: val(x) for k, x in r.attrs.items()}, r.site)
                    elif isinstance(r, OList):
                        r = OList([val(x) for x in r.items])
                    elif isinstance(r, ODict):
                        r = ODict({k: (val(kk), val(x)) for k, (kk, x) in r.d.items()}, r.open_, r.default)
                    else:
                        r = OSet({k: (val(kk), val(x)) for k, (kk, x) in r.d.items()}, r.open_)
                    self.set(ref, r)
                return new[v.addr]
            if isinstance(v, tuple):
                return tuple(val(x) for x in v)
            if isinstance(v, Ite):
                return Ite(v.c, val(v.a), val(v.b))
            if isinstance(v, SegOpt):
                return SegOpt(v.c, tuple(val(x) for x in v.items))
            if isinstance(v, SegFor):
                return SegFor(v.loop, tuple(val(x) for x in v.items))
            return v
        return tuple(val(x) for x in seg.items)

    def compare(self, head, cont, havoc):
        """Record which slots of objects that existed at the loop head were changed by the body."""
        grown = False
        for addr, h in head.items():
            n = cont.get(addr)
            if n is h or n is None:
                continue
            what = havoc.get(addr)
            new = set() if not what else set(what)
            if isinstance(h, (OInst, OClass, OModule, OFunc, OFrame)):
                ma = h.vars if isinstance(h, OFrame) else h.attrs
                mb = n.vars if isinstance(n, OFrame) else n.attrs
                for k in set(ma) | set(mb):
                    x, y = ma.get(k, ABSENT), mb.get(k, ABSENT)
                    if not same(x, y):
                        new.add(k)
            elif isinstance(h, OList):
                k = len(h.items)
                if n.items[:k] == h.items and all(x is y or same(x, y) for x, y in zip(n.items[:k], h.items)):
                    if len(n.items) > k:
                        new.add('+append')
                else:
                    new.add('+all')
            elif isinstance(h, (ODict, OSet)):
                for k in set(h.d) | set(n.d):
                    x = h.d.get(k, (None, ABSENT))[1]
                    y = n.d.get(k, (None, ABSENT))[1]
                    if not same(x, y):
                        new.add(k if k in h.d else '+open')
                if n.open_ != h.open_:
                    new.add('+open')
            elif isinstance(h, OIter):
                new.add('+pos')
            if new != (set(what) if what else set()):
                havoc[addr] = new
                grown = True
        return grown

    def widen(self, rec, what, lid, addr, segs):
        def unk(k):
            return Term('loopvar', lid, addr, k if isinstance(k, str) else repr(k))
        if isinstance(rec, (OInst, OClass, OModule, OFunc, OFrame)):
            for k in sorted(what, key=repr):
                old = (rec.vars if isinstance(rec, OFrame) else rec.attrs).get(k, ABSENT)
                new = unk(k)
                if old is ABSENT:
                    new = Ite(Term('atom', 'looped', lid), new, ABSENT)
                rec = rec.put(k, new)
            return rec
        if isinstance(rec, OList):
            if '+all' in what:
                return OList((SegFor(('any', lid), (unk('elem'),)),))
            seg = SegFor(lid)
            segs[addr] = seg
            return OList(rec.items + (seg,))
        if isinstance(rec, ODict):
            d = dict(rec.d)
            for k in what:
                if k in d:
                    d[k] = (d[k][0], unk(k))
            return ODict(d, unk('+open'), rec.default)
        if isinstance(rec, OSet):
            return OSet(dict(rec.d), unk('+open'))
        if isinstance(rec, OIter):
            return OIter(rec.items, unk('pos'))
        return rec

    def iterate(self, v, body, site=None):
        """Run body for each element of v, in order."""
        v = self.resolve(v)
        if isinstance(v, Ite):
            self.fork(v.c, lambda: self.iterate(v.a, body, site), lambda: self.iterate(v.b, body, site))
            return
        if isinstance(v, tuple):
            self.iter_items(v, body, site)
            return
        if isinstance(v, str):
            self.iter_items(tuple(v), body, site)
            return
        if isinstance(v, Lazy):
            self.iter_lazy(v, body, site)
            return
        if isinstance(v, DictView):
            r = self.get(v.ref)
            self.iter_items(tuple(r.attrs), body, site)
            return
        if isinstance(v, (Term, SStr)):
            src = v
            self.star_loop('for', lambda: body(Term('elem', src, self.uid())), site, src=src)
            return
        r = self.rec(v)
        if isinstance(r, OList):
            self.iter_items(r.items, body, site, live=v)
            return
        if isinstance(r, (ODict, OSet)):
            for k, (kk, x) in list(r.d.items()):
                p = self.present(x) if isinstance(x, Ite) else True
                self.fork(p, lambda kk=kk: body(kk), lambda: None)
            if r.open_ is not None:
                o = r.open_
                self.star_loop('for', lambda: body(Term('key', o, self.uid())), site, src=o)
            return
        if isinstance(r, OIter):
            if isinstance(r.pos, int):
                items = r.items[r.pos:]
                self.set(v, OIter(r.items, len(r.items)))
                self.iter_items(items, body, site)
                return
            raise Unsupported('iterator position unknown')
        if isinstance(r, OGen):
            def on_yield(x):
                body(x)
                return None
            r.run(on_yield)
            return
        if isinstance(r, OInst):
            if '__payload__' in r.attrs and self.class_lookup(r.cls, '__iter__') is None:
                self.iterate(r.attrs['__payload__'], body, site)
                return
            f = self.class_lookup(r.cls, '__iter__')
            if f is not None:
                it = self.call(self.bind(f[0], v, r.cls), [], {})
                if it == v:
                    self.iter_next(v, body, site)
                else:
                    self.iterate(it, body, site)
                return
            if self.class_lookup(r.cls, '__next__') is not None:
                self.iter_next(v, body, site)
                return
        if isinstance(r, OClass):
            f = self.class_lookup(r.meta, '__iter__') if r.meta else None
            if f is not None:
                self.iterate(self.call(self.bind(f[0], v, r.meta), [], {}), body, site)
                return
        self.throw('TypeError', '%s object is not iterable' % self.describe(v))

    def iter_next(self, v, body, site):
        raise Unsupported('iteration through __next__')

    def iter_items(self, items, body, site, live=None):
        i = 0
        while i < len(items):
            x = items[i]
            if isinstance(x, SegOpt):
                self.fork(x.c, lambda: self.iter_items(x.items, body, site), lambda: None)
            elif isinstance(x, SegFor):
                self.star_loop('for', lambda: self.iter_items(self.instance_of(x), body, site), site, src=Term('seg', x.loop))
            else:
                body(x)
            i += 1
            if i > 20000:
                raise Unsupported('long loop')
            if live is not None:
                r = self.rec(live, OList)
                if r is not None:
                    items = r.items

    def iter_lazy(self, v, body, site):
        k, a = v.kind, v.args
        if k == 'enumerate':
            cell = self.new_list((a[1],))

            def eb(x):
                n = self.get(cell).items[0]
                n = self.resolve(n) if not isinstance(n, SegFor) else sym('index', 'int')
                if isinstance(n, SegFor):
                    n = sym('index', 'int')
                self.set(cell, OList((self.arith('Add', n, 1),)))
                body((n, x))
            self.iterate(a[0], eb, site)
        elif k == 'map':
            if len(a) == 2:
                self.iterate(a[1], lambda x: body(self.call(a[0], [x], {})), site)
            else:
                self.iterate(Lazy('zip', *a[1:]), lambda x: body(self.call(a[0], list(x), {})), site)
        elif k == 'filter':
            def fb(x):
                c = self.truth(x if a[0] is None else self.call(a[0], [x], {}))
                self.fork(c, lambda: body(x), lambda: None)
            self.iterate(a[1], fb, site)
        elif k == 'starmap':
            self.iterate(a[1], lambda x: body(self.call(a[0], self.concrete_items(x), {})), site)
        elif k == 'chain':
            for x in a:
                self.iterate(x, body, site)
        elif k == 'chain_from':
            self.iterate(a[0], lambda x: self.iterate(x, body, site), site)
        elif k == 'zip':
            cols = [self.concrete_items(x) for x in a]
            if any(c is None for c in cols):
                self.star_loop('for', lambda: body(tuple(Term('elem', self.freeze(x), self.uid()) for x in a)), site, src=Term('zip'))
            else:
                for row in zip(*cols):
                    body(tuple(row))
        elif k == 'reversed':
            items = self.concrete_items(a[0])
            if items is None:
                r = self.rec(a[0], OList)
                if r is not None:
                    self.iter_items(tuple(reversed(r.items)), body, site)
                    return
                raise Unsupported('reversed of unknown collection')
            for x in reversed(items):
                body(x)
        elif k == 'keys' or k == 'dict':
            self.iterate(a[0], body, site)
        elif k in ('values', 'items'):
            r = self.rec(a[0], ODict)
            if r is None:
                raise Unsupported('%s view' % k)
            for key, (kk, x) in list(r.d.items()):
                def one(x=x, kk=kk):
                    # only the alternatives in which the entry exists
                    x = self.drop_absent(self.resolve(x))
                    body(x if k == 'values' else (kk, x))
                p = self.present(x) if isinstance(x, Ite) else True
                self.fork(p, one, lambda: None)
            if r.open_ is not None:
                o = r.open_

                def ob():
                    u = self.uid()
                    kk = Term('key', o, u)
                    body(Term('item', o, kk) if k == 'values' else (kk, Term('item', o, kk)))
                self.star_loop('for', ob, site, src=o)
        elif k == 'range':
            a0 = [self.resolve(x) for x in a]
            if all(isinstance(x, int) for x in a0):
                rng = range(*a0)
                if len(rng) > 400:
                    self.star_loop('for', lambda: body(sym('index', 'int')), site, src=Term('range', *a0))
                else:
                    for x in rng:
                        body(x)
            elif len(a0) == 1 and isinstance(a0[0], Term) and a0[0].op == 'len' and isinstance(a0[0].args[0], Term):
                # the positions of an unknown sequence
                src = a0[0].args[0]
                self.star_loop('for', lambda: body(Term('index', Term('elem', src, self.uid()))), site, src=src)
            else:
                src = Term('range', *[self.freeze(x) for x in a0])
                self.star_loop('for', lambda: body(Term('elem', src, self.uid())), site, src=src)
        elif k == 'iter2':
            def guard():
                x = self.call(a[0], [], {})
                self.iter2_val = x
                return neg(self.eq(x, a[1]))
            self.star_loop('while', lambda: body(self.iter2_val), site, guard=guard)
        elif k == 'count':
            self.star_loop('while', lambda: body(sym('index%d' % self.uid(), 'int')), site, guard=lambda: True)
        elif k == 'repeat':
            self.star_loop('while', lambda: body(a[0]), site, guard=lambda: True)
        elif k == 'takewhile' or k == 'dropwhile' or k == 'islice':
            items = self.concrete_items(a[1] if k != 'islice' else a[0])
            if items is None:
                raise Unsupported(k)
            if k == 'islice':
                for x in items[slice(*a[1:])]:
                    body(x)
            else:
                raise Unsupported(k)
        elif k == 'groupby':
            raise Unsupported('groupby')
        else:
            raise Unsupported('lazy %s' % k)

    def drop_absent(self, v):
        if isinstance(v, Ite):
            if v.a is ABSENT:
                return self.drop_absent(v.b)
            if v.b is ABSENT:
                return self.drop_absent(v.a)
            return mk_ite(v.c, self.drop_absent(v.a), self.drop_absent(v.b))
        return v

    # ---- definitions -----------------------------------------------------------------

    def st_FunctionDef(self, s):
        f = self.make_function(s)
        for d in reversed(s.decorator_list):
            dec = self.ev(d)
            self.node = s
            f = self.call(dec, [f], {})
        self.assign_name(s.name, f)

    def make_function(self, s):
        a = s.args
        defaults = tuple(self.ev(d) for d in a.defaults)
        kwd = {}
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[arg.arg] = self.ev(d)
        g = self.gen_cache.get(id(s))
        if g is None:
            g = self.gen_cache[id(s)] = (has_yield(s), s)
        fr = self.st.heap[self.frame]
        name = getattr(s, 'name', '<lambda>')
        qual = name
        addr = self.frame
        f2 = fr
        while f2.kind != 'module':
            if f2.kind in ('class', 'func'):
                qual = (f2.func or '?') + '.' + name
                break
            addr = f2.parent
            f2 = self.st.heap[addr]
        modname = self.modinfo[self.module_frame(self.frame)][0]
        return self.alloc(OFunc(s, self.frame, defaults, kwd, name, qual, modname, fr.module, {}, g[0]))

    def st_ClassDef(self, s):
        bases = []
        for b in s.bases:
            x = self.resolve(self.ev(b))
            if isinstance(x, Ite):
                raise Unsupported('class with unknown base')
            bases.append(x)
        meta = None
        kw = {}
        for k in s.keywords:
            if k.arg == 'metaclass':
                meta = self.ev(k.value)
            elif k.arg:
                kw[k.arg] = self.ev(k.value)
        for i, b in enumerate(bases):
            if isinstance(b, Term):
                raise Unsupported('class %s derives from unmodelled %r' % (s.name, b))
            if not isinstance(self.rec(b), OClass):
                raise Unsupported('class %s has a non-class base' % s.name)
        if meta is None:
            for b in bases:
                m = self.get(b).meta
                if m is not None and (meta is None or self.is_subclass(m, meta)):
                    meta = m
        mod = self.modinfo[self.module_frame(self.frame)][0]
        fr = self.st.heap[self.frame]
        qual = s.name if fr.kind == 'module' else (fr.func or '') + '.' + s.name
        cf = self.alloc(OFrame({'__module__': mod, '__qualname__': qual}, self.frame, 'class', fr.module, qual, ({}, ())))
        saved = self.frame
        self.frame = cf.addr
        doc = ast.get_docstring(s)
        if doc:
            self.st.heap[cf.addr] = self.st.heap[cf.addr].put('__doc__', doc)
        try:
            self.exec_block(s.body)
        finally:
            self.frame = saved
        self.node = s
        attrs = {k: v for k, v in self.st.heap[cf.addr].vars.items() if k != '__qualname__'}
        if meta is not None and self.get(meta).native != 'plaintype':
            ns = self.new_dict(attrs.items())
            cls = self.call(meta, [s.name, tuple(bases), ns], kw)
        else:
            cls = self.make_class(s.name, bases, attrs, meta, mod)
            self.init_subclass(cls, kw)
        self.st.heap[cf.addr] = self.st.heap[cf.addr].put('__class__', cls)
        for d in reversed(s.decorator_list):
            cls = self.call(self.ev(d), [cls], {})
        self.assign_name(s.name, cls)

    def init_subclass(self, cls, kw):
        mro = self.get(cls).mro
        for k in mro[1:]:
            f = self.get(k).attrs.get('__init_subclass__')
            if f is not None:
                f = f.f if isinstance(f, ClsM) else f
                self.call(Bound(f, cls), [], kw)
                return
        for n, v in list(self.get(cls).attrs.items()):
            r = self.rec(v)
            if isinstance(r, OInst):
                sn = self.class_lookup(r.cls, '__set_name__')
                if sn is not None:
                    self.call(self.bind(sn[0], v, r.cls), [cls, n], {})

    def st_Import(self, s):
        for al in s.names:
            m = self.import_module(al.name)
            if al.asname:
                self.assign_name(al.asname, m)
            else:
                top = al.name.split('.')[0]
                self.assign_name(top, self.modules.get(top, m) if '.' in al.name else m)

    def st_ImportFrom(self, s):
        name = s.module or ''
        if s.level:
            name = self.resolve_relative(s.module, s.level)
        if name == '__future__':
            return
        m = self.import_module(name)
        for al in s.names:
            if al.name == '*':
                r = self.rec(m, OModule)
                if r is None:
                    raise Unsupported('import * from unknown module')
                names = r.attrs.get('__all__')
                names = self.concrete_items(names) if names is not None else [n for n in r.attrs if not n.startswith('_')]
                for n in names:
                    self.assign_name(n, self.getattr(m, n))
                continue
            v = self.getattr(m, al.name, ABSENT) if isinstance(m, Ref) else Term('attr', m, al.name)
            if v is ABSENT:
                sub = self.import_module(name + '.' + al.name, optional=True)
                if sub is None:
                    self.throw('ImportError', "cannot import name '%s' from '%s'" % (al.name, name))
                v = sub
            self.assign_name(al.asname or al.name, v)

    # ---- expressions -------------------------------------------------------------------

    def ev(self, e):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e)

    def ex_Constant(self, e):
        v = e.value
        if isinstance(v, str) and v:
            src = self.modinfo[self.module_frame(self.frame)][2]
            if src.tracked:
                return lstr(v, ((0, len(v), (src.rel, e.lineno)),))
        return v

    def ex_Name(self, e):
        return self.lookup(e.id)

    def ex_Attribute(self, e):
        o = self.ev(e.value)
        self.node = e
        self._descr_lookup = e.attr
        return self.getattr(o, e.attr)

    def ex_Tuple(self, e):
        return tuple(self.ev_star(e.elts))

    def ex_List(self, e):
        return self.new_list(self.ev_star(e.elts, symbolic=True))

    def ex_Set(self, e):
        d = {}
        for x in self.ev_star(e.elts):
            d[self.key(x)] = (x, True)
        return self.alloc(OSet(d))

    def ev_star(self, elts, symbolic=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                items = self.concrete_items(v)
                if items is None:
                    if symbolic:
                        out.extend(self.get(self.to_list(v)).items)
                        continue
                    raise Unsupported('unpacking an unknown collection')
                out.extend(items)
            else:
                out.append(self.ev(x))
        return out

    def ex_Dict(self, e):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.ev(v))
            else:
                kk = self.ev(k)
                self.setitem(d, kk, self.ev(v))
        return d

    def dict_update(self, d, src):
        src = self.resolve(src)
        if isinstance(src, Ite):
            self.case(src, lambda u: self.dict_update(d, u))
            return
        r = self.rec(src)
        if isinstance(r, OInst) and '__payload__' in r.attrs:
            return self.dict_update(d, r.attrs['__payload__'])
        if isinstance(r, ODict):
            rec = self.get(d)
            nd = dict(rec.d)
            for k, (kk, v) in r.d.items():
                if isinstance(v, Ite) and self.has_absent(v):
                    old = nd.get(k, (kk, ABSENT))[1]
                    v = self.subst_absent(v, old)
                nd[k] = (kk, v)
            self.set(d, ODict(nd, r.open_ or rec.open_, rec.default))
            return
        if isinstance(src, Term):
            rec = self.get(d)
            self.set(d, ODict(rec.d, src, rec.default))
            return
        if isinstance(src, DictView):
            a = self.get(src.ref).attrs
            for k, v in a.items():
                self.setitem(d, k, v)
            return

        def one(x):
            p = self.concrete_items(x)
            if p is None or len(p) != 2:
                raise Unsupported('dict update from unknown pairs')
            self.setitem(d, p[0], p[1])
        self.iterate(src, one)

    def ex_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(self.ex_Constant(v))
            else:
                out.append(self.ev(v))
        return self.cat_cases(out)

    def ex_FormattedValue(self, e):
        from . import builtins_ as b
        v = self.ev(e.value)
        if e.conversion == ord('r'):
            v = b.to_repr(self, v)
        spec = self.ev(e.format_spec) if e.format_spec is not None else ''
        return b.format_value(self, v, spec)

    def cat_cases(self, parts):
        return cat([self.resolve(p) if isinstance(p, Ite) else p for p in parts])

    def ex_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.node = e
        return self.binop(e.op, a, b)

    def binop(self, op, a, b, inplace=False):
        from . import builtins_ as bi
        return bi.binop(self, type(op).__name__, a, b, inplace)

    def arith(self, op, a, b):
        from . import builtins_ as bi
        return bi.binop(self, op, a, b, False)

    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return neg(self.truth(v))
        return self.case(v, lambda u: self.unary(e.op, u))

    def unary(self, op, u):
        if isinstance(u, (int, float)):
            if isinstance(op, ast.USub):
                return -u
            if isinstance(op, ast.UAdd):
                return +u
            return ~u
        if isinstance(u, Ref):
            r = self.get(u)
            nm = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[type(op).__name__]
            f = self.class_lookup(r.cls, nm) if isinstance(r, OInst) else None
            if f is None:
                self.throw('TypeError', 'bad operand type for unary operator')
            return self.call(self.bind(f[0], u, r.cls), [], {})
        return Term('unary', type(op).__name__, u)

    def ex_BoolOp(self, e):
        return self.boolop(isinstance(e.op, ast.And), e.values)

    def boolop(self, is_and, values):
        v = self.ev(values[0])
        if len(values) == 1:
            return v
        c = self.truth(v)
        rest = lambda: self.boolop(is_and, values[1:])  # noqa
        if is_and:
            return self.fork(c, rest, lambda: self.refine_false(v))
        return self.fork(c, lambda: self.refine_true(v), rest)

    def refine_false(self, v):
        v = self.resolve(v)
        if isinstance(v, Term) and term_type(v) == 'bool':
            return False
        return v

    def refine_true(self, v):
        v = self.resolve(v)
        if isinstance(v, Term) and term_type(v) == 'bool':
            return True
        return v

    def ex_Compare(self, e):
        left = self.ev(e.left)
        return self.compare_chain(left, e.ops, e.comparators)

    def compare_chain(self, left, ops, comps):
        right = self.ev(comps[0])
        c = self.compare_op(ops[0], left, right)
        if len(ops) == 1:
            return c
        return self.fork(self.truth(c), lambda: self.compare_chain(right, ops[1:], comps[1:]), lambda: False)

    def compare_op(self, op, a, b):
        from . import builtins_ as bi
        n = type(op).__name__
        if n == 'Is':
            return self.is_(a, b)
        if n == 'IsNot':
            return neg(self.is_(a, b))
        if n == 'Eq':
            return self.eq(a, b)
        if n == 'NotEq':
            a1 = self.resolve(a)
            r = self.rec(a1)
            if isinstance(r, OInst):
                f = self.class_lookup(r.cls, '__ne__')
                if f is not None and isinstance(f[0], Ref):
                    return self.truth(self.call(Bound(f[0], a1), [b], {}))
            return neg(self.eq(a, b))
        if n in ('In', 'NotIn'):
            c = self.contains(b, a)
            return c if n == 'In' else neg(c)
        return bi.order(self, n, a, b)

    def contains(self, coll, x):
        """bool or condition for x in coll"""
        coll = self.resolve(coll)
        if isinstance(coll, Ite):
            return self.resolve_cond(self.fork(coll.c, lambda: self.contains(coll.a, x), lambda: self.contains(coll.b, x)))
        x = self.resolve(x)
        if isinstance(x, Ite):
            return self.resolve_cond(self.fork(x.c, lambda: self.contains(coll, x.a), lambda: self.contains(coll, x.b)))
        if isinstance(coll, tuple):
            return disj([self.eq(x, y) for y in coll])
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        if isinstance(coll, (str, SStr)):
            if isinstance(x, str):
                if any(isinstance(p, str) and x in p for p in sparts(coll)):
                    return True
                return Term('in', x, coll)
            return Term('in', x, coll)
        if isinstance(coll, Term):
            return Term('in', self.freeze(x), coll)
        if isinstance(coll, DictView):
            a = self.get(coll.ref).attrs
            return self.present(a[x]) if isinstance(x, str) and x in a else False
        r = self.rec(coll)
        if isinstance(r, OInst):
            f = self.class_lookup(r.cls, '__contains__')
            if f is not None:
                return self.truth(self.call(self.bind(f[0], coll, r.cls), [x], {}))
            if '__payload__' in r.attrs:
                return self.contains(r.attrs['__payload__'], x)
            items = self.concrete_items(coll)
            if items is not None:
                return disj([self.eq(x, y) for y in items])
            return Term('atom', 'in', self.uid())
        if isinstance(r, (ODict, OSet)):
            k = self.key(x)
            if k in r.d:
                v = r.d[k][1]
                return self.present(v) if (isinstance(v, Ite) or v is ABSENT) else True
            conds = []
            if not is_const(x):
                for kk, v in r.d.values():
                    c = self.eq(x, kk)
                    if c is not False:
                        conds.append(conj([c, self.present(v)]))
            elif any(not is_const(kk) for kk, v in r.d.values()):
                for kk, v in r.d.values():
                    if not is_const(kk):
                        c = self.eq(kk, x)
                        if c is not False:
                            conds.append(conj([c, self.present(v)]))
            if r.open_ is not None:
                conds.append(Term('in', self.freeze(x), r.open_))
            return disj(conds) if conds else False
        if isinstance(r, OList):
            return self.items_contain(r.items, x)
        if isinstance(coll, Lazy) and coll.kind in ('keys',):
            return self.contains(coll.args[0], x)
        items = self.concrete_items(coll)
        if items is not None:
            return disj([self.eq(x, y) for y in items])
        return Term('atom', 'in', self.uid())

    def items_contain(self, items, x):
        conds = []
        for y in items:
            if isinstance(y, SegOpt):
                conds.append(conj([y.c, self.items_contain(y.items, x)]))
            elif isinstance(y, SegFor):
                conds.append(Term('atom', 'in', self.uid()))
            else:
                conds.append(self.eq(x, y))
        return disj(conds) if conds else False

    def ex_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.fork(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign_name(e.target.id, v)
        return v

    def ex_Lambda(self, e):
        return self.make_function(e)

    def ex_Starred(self, e):
        raise Unsupported('starred expression')

    def ev_index(self, sl):
        if isinstance(sl, ast.Slice):
            return ('slice',) + tuple(self.ev(x) if x is not None else None for x in (sl.lower, sl.upper, sl.step))
        return self.ev(sl)

    def ex_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            k = [self.ev(x) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            self.node = e
            return self.getslice(o, *k)
        k = self.ev(e.slice)
        self.node = e
        return self.getitem(o, k)

    def getslice(self, o, a, b, c):
        from . import builtins_ as bi
        return bi.getslice(self, o, a, b, c)

    def getitem(self, o, k):
        from . import builtins_ as bi
        return bi.getitem(self, o, k)

    def setitem(self, o, k, v):
        from . import builtins_ as bi
        return bi.setitem(self, o, k, v)

    def delitem(self, o, k):
        from . import builtins_ as bi
        return bi.delitem(self, o, k)

    # comprehensions

    def comp_frame(self):
        fr = self.st.heap[self.frame]
        ref = self.alloc(OFrame({}, self.frame, 'comp', fr.module, fr.func, ({}, ())))
        return ref.addr

    def run_comp(self, gens, emit, first=None, cf=None):
        """Nested loops of a comprehension."""
        outer = self.frame

        def level(i, src):
            g = gens[i]

            def body(x):
                f2 = self.frame
                self.frame = cf
                try:
                    self.comp_assign(g.target, x)

                    def conds(j):
                        if j == len(g.ifs):
                            if i + 1 < len(gens):
                                level(i + 1, self.ev(gens[i + 1].iter))
                            else:
                                emit()
                            return
                        c = self.truth(self.ev(g.ifs[j]))
                        self.fork(c, lambda: conds(j + 1), lambda: None)
                    conds(0)
                finally:
                    self.frame = f2
            self.iterate(src, body, site=g.target)
        if cf is None:
            cf = self.comp_frame()
        src = first if first is not None else self.ev(gens[0].iter)
        self.frame = cf
        try:
            level(0, src)
        finally:
            self.frame = outer

    def comp_assign(self, t, x):
        # comprehension variables live in the comprehension's own frame
        if isinstance(t, ast.Name):
            self.st.heap[self.frame] = self.st.heap[self.frame].put(t.id, x)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.concrete_items(x) if not isinstance(x, Term) else None
            if isinstance(self.resolve(x), Ite):
                def go(u):
                    self.comp_assign(t, u)
                self.case(x, go)
                return
            if items is None:
                items = [Term('item', x, i) for i in range(len(t.elts))]
            if len(items) != len(t.elts):
                self.throw('ValueError', 'wrong number of values to unpack')
            for a, b in zip(t.elts, items):
                self.comp_assign(a, b)
        else:
            self.assign(t, x)

    def ex_ListComp(self, e):
        lst = self.new_list(())
        self.run_comp(e.generators, lambda: self.list_append(lst, self.ev(e.elt)))
        return lst

    def ex_SetComp(self, e):
        s = self.alloc(OSet({}))

        def add():
            v = self.ev(e.elt)
            r = self.get(s)
            d = dict(r.d)
            d[self.key(v)] = (v, True)
            self.set(s, OSet(d, r.open_))
        self.run_comp(e.generators, add)
        return s

    def ex_DictComp(self, e):
        d = self.new_dict()
        self.run_comp(e.generators, lambda: self.setitem(d, self.ev(e.key), self.ev(e.value)))
        return d

    def ex_GeneratorExp(self, e):
        first = self.ev(e.generators[0].iter)
        frame = self.frame

        def run(on_yield):
            saved = self.frame
            self.frame = frame
            cf = self.comp_frame()

            def emit():
                v = self.ev(e.elt)
                f2, d2 = self.frame, len(self.stack)
                self.frame = saved
                try:
                    on_yield(v)
                finally:
                    self.frame = f2
                    del self.stack[d2:]
            try:
                self.run_comp(e.generators, emit, first, cf)
            finally:
                self.frame = saved
        return self.alloc(OGen(run, 'genexp'))

    def ex_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        cb = self.yield_stack[-1]
        if cb is None:
            raise Unsupported('yield outside generator')
        return self.do_yield(cb, v)

    def do_yield(self, cb, v):
        saved_ids = self.loop_ids
        saved_y = self.yield_stack
        self.yield_stack = self.yield_stack[:-1]
        saved_exc = self.current_exc
        f, d, n = self.frame, len(self.stack), self.node
        self.loop_ids = cb[1]
        self.current_exc = cb[2]
        try:
            r = cb[0](v)
        finally:
            self.loop_ids = saved_ids
            self.yield_stack = saved_y
            self.current_exc = saved_exc
            self.frame, self.node = f, n
            del self.stack[d:]
        return r

    def ex_YieldFrom(self, e):
        v = self.ev(e.value)
        cb = self.yield_stack[-1]
        self.iterate(v, lambda x: self.do_yield(cb, x))
        return None

    def ex_Await(self, e):
        raise Unsupported('await')

    # ---- calls --------------------------------------------------------------------------

    def ex_Call(self, e):
        f = self.ev(e.func)
        if isinstance(e.func, ast.Name) and isinstance(f, Builtin) and f.name in ('super', 'locals', 'vars', 'globals', 'dir') and not e.args and not e.keywords:
            self.node = e
            return self.frame_builtin(f.name)
        args = []
        starlist = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                items = self.concrete_items(v)
                if items is None:
                    starlist = v
                    args.append(('*unknown*', v))
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a))
        kwargs = {}
        kwopen = None
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is not None:
                kwargs[k.arg] = v
            else:
                kwopen = self.spread_kwargs(v, kwargs, kwopen)
        self.node = e
        if kwopen is not None:
            kwargs['**'] = kwopen
        return self.call(f, args, kwargs)

    def spread_kwargs(self, v, kwargs, kwopen):
        v = self.resolve(v)
        r = self.rec(v)
        if isinstance(r, OInst) and '__payload__' in r.attrs:
            r = self.rec(r.attrs['__payload__'])
        if isinstance(r, ODict):
            for k, x in r.d.values():
                if isinstance(k, str):
                    kwargs[str(k)] = x
                elif isinstance(k, Term) or isinstance(k, SStr):
                    kwargs[('sym', k)] = x
                else:
                    self.throw('TypeError', 'keywords must be strings')
            return r.open_ if r.open_ is not None else kwopen
        if isinstance(v, Term):
            return v
        if isinstance(v, DictView):
            for k, x in self.get(v.ref).attrs.items():
                kwargs[k] = x
            return kwopen
        raise Unsupported('** of %r' % (v,))

    def frame_builtin(self, name):
        if name == 'super':
            addr = self.frame
            ff = None
            cls = None
            while addr is not None:
                fr = self.st.heap[addr]
                if fr.kind == 'func':
                    ff = addr
                if fr.kind == 'class' and '__class__' in fr.vars:
                    cls = fr.vars['__class__']
                    break
                if fr.kind == 'class' and '__class__' not in fr.vars:
                    raise Unsupported('super() before class creation')
                addr = fr.parent
            if cls is None or ff is None:
                self.throw('RuntimeError', 'super(): no arguments')
            fr = self.st.heap[ff]
            return Super(cls, self.resolve(fr.vars[self.first_arg[ff]]))
        if name in ('locals', 'vars'):
            fr = self.st.heap[self.frame]
            while fr.kind == 'comp':
                fr = self.st.heap[fr.parent]
            d = {}
            for k, v in fr.vars.items():
                d[self.key(k)] = (k, v)
            return self.alloc(ODict(d))
        if name == 'globals':
            m = self.module_frame(self.frame)
            fr = self.st.heap[m]
            return self.new_dict(list(fr.vars.items()))
        if name == 'dir':
            return self.new_list(sorted(self.st.heap[self.frame].vars))

    first_arg = None

    def call(self, f, args, kwargs):
        f = self.resolve(f)
        if isinstance(f, Ite):
            return self.case(f, lambda u: self.call(u, args, kwargs))
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Builtin):
            self.check_known_args(f, args)
            return f.fn(self, list(args), kwargs)
        if isinstance(f, Ref):
            r = self.get(f)
            if isinstance(r, OFunc):
                return self.call_function(f, r, args, kwargs)
            if isinstance(r, OClass):
                return self.instantiate(f, r, args, kwargs)
            if isinstance(r, OInst):
                g = self.class_lookup(r.cls, '__call__')
                if g is not None:
                    return self.call(self.bind(g[0], f, r.cls), args, kwargs)
                self.throw('TypeError', '%s is not callable' % self.describe(f))
        if isinstance(f, (ClsM, StatM)):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Term):
            return self.opaque_call(f, args, kwargs)
        self.throw('TypeError', '%s is not callable' % self.describe(f))

    def check_known_args(self, f, args):
        for a in args:
            if isinstance(a, tuple) and len(a) == 2 and a[0] == '*unknown*':
                raise Unsupported('call of %s with unknown arguments' % f.name)

    def opaque_call(self, f, args, kwargs):
        u = self.uid()
        res = Term('ret', f, u)
        self.event('call', [f, tuple(args)], kwargs, res)
        return res

    def call_function(self, ref, r, args, kwargs):
        qn = '%s:%s' % (r.module, r.qualname)
        ov = self.opaque_funcs.get(qn)
        if ov is not None:
            self.node_site = None
            return ov(self, args, kwargs)
        if len(self.stack) > MAXDEPTH:
            raise Unsupported('recursion too deep in %s' % qn)
        node = r.node
        lc = self.locals_cache.get(id(node))
        if lc is None:
            lc = self.locals_cache[id(node)] = local_names(node) + (node,)
        frame = self.alloc(OFrame({}, r.frame, 'func', r.file, r.qualname, ({}, lc[0])))
        vars_ = self.bind_args(r, args, kwargs)
        self.st.heap[frame.addr] = OFrame(vars_, r.frame, 'func', r.file, r.qualname, ({}, lc[0]))
        if self.first_arg is None:
            self.first_arg = {}
        a = node.args
        pos = a.posonlyargs + a.args
        if pos:
            self.first_arg[frame.addr] = pos[0].arg
        elif a.vararg:
            self.first_arg[frame.addr] = a.vararg.arg
        self.analysed_funcs.add((r.file, r.qualname))
        if r.isgen:
            return self.alloc(OGen(lambda cb: self.run_generator(frame, r, cb), qn, ref))
        return self.run_frame(frame, r)

    def run_generator(self, frame, r, cb):
        self.yield_stack = list(self.yield_stack) + [(cb, self.loop_ids, self.current_exc)]
        try:
            self.run_frame(frame, r)
        finally:
            self.yield_stack = self.yield_stack[:-1]

    def run_frame(self, frame, r):
        node = r.node
        saved_frame, saved_node, saved_abrupt, saved_ids = self.frame, self.node, self.abrupt, self.loop_ids
        saved_exc = self.current_exc
        self.stack.append((self.frame_file() or ('', '')) + (self.node,))
        depth = len(self.stack)
        self.frame = frame.addr
        self.abrupt = []
        self.loop_ids = ()
        res = []
        if not r.isgen:
            ys = self.yield_stack
            self.yield_stack = [None]
        try:
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body)
                res.append((self.st, v))
            else:
                self.exec_block(node.body)
                res.append((self.st, None))
        except Dead:
            pass
        finally:
            mine = self.abrupt
            self.abrupt = saved_abrupt
            self.frame, self.node, self.loop_ids = saved_frame, saved_node, saved_ids
            self.current_exc = saved_exc
            del self.stack[depth - 1:]
            if not r.isgen:
                self.yield_stack = ys
        for e in mine:
            if e[0] == 'return' and e[1] == frame.addr:
                res.append((e[2], e[3]))
            else:
                self.abrupt.append(e)
        return self.join(res)

    def bind_args(self, r, args, kwargs):
        a = r.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        args = list(args)
        unknown_star = None
        if any(isinstance(x, tuple) and len(x) == 2 and x[0] == '*unknown*' for x in args):
            i = [i for i, x in enumerate(args) if isinstance(x, tuple) and len(x) == 2 and x[0] == '*unknown*'][0]
            unknown_star = args[i][1]
            args = args[:i]
            if not a.vararg or len(args) < len(pos):
                raise Unsupported('call with unknown positional arguments')
        kwargs = dict(kwargs)
        kwopen = kwargs.pop('**', None)
        for n, v in zip(pos, args):
            vars_[n] = v
        extra = args[len(pos):]
        if extra and not a.vararg:
            self.throw('TypeError', '%s() takes %d positional arguments but %d were given' % (r.name, len(pos), len(args)))
        if a.vararg:
            vars_[a.vararg.arg] = tuple(extra) if unknown_star is None else unknown_star
        posonly = set(x.arg for x in a.posonlyargs)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if isinstance(k, str) and (k in pos or k in kwonly) and k not in posonly:
                if k in vars_:
                    self.throw('TypeError', "%s() got multiple values for argument '%s'" % (r.name, k))
                if self.has_absent(v):
                    dflt = self.default_for(r, k, pos)
                    if dflt is None:
                        raise Unsupported('possibly missing argument %s' % k)
                    v = self.subst_absent(v, dflt[0])
                vars_[k] = v
            else:
                rest[k] = v
        if rest and not a.kwarg:
            k = list(rest)[0]
            self.throw('TypeError', "%s() got an unexpected keyword argument '%s'" % (r.name, k if isinstance(k, str) else k[1]))
        for n in pos + kwonly:
            if n in vars_:
                continue
            d = self.default_for(r, n, pos)
            if kwopen is not None and n not in posonly:
                opt = Term('item', kwopen, n)
                if d is not None:
                    vars_[n] = mk_ite(Term('in', n, kwopen), opt, d[0])
                else:
                    vars_[n] = opt
                continue
            if d is None:
                self.throw('TypeError', "%s() missing required argument: '%s'" % (r.name, n))
            vars_[n] = d[0]
        if a.kwarg:
            d = {}
            for k, v in rest.items():
                kk = k if isinstance(k, str) else k[1]
                d[self.key(kk)] = (kk, v)
            vars_[a.kwarg.arg] = self.alloc(ODict(d, kwopen))
        return vars_

    def default_for(self, r, n, pos):
        if n in r.kwdefaults:
            return (r.kwdefaults[n],)
        if n in pos:
            i = pos.index(n) - (len(pos) - len(r.defaults))
            if i >= 0:
                return (r.defaults[i],)
        return None

    def instantiate(self, ref, r, args, kwargs):
        from . import builtins_ as bi
        meta = r.meta
        if meta is not None:
            f = self.class_lookup(meta, '__call__')
            if f is not None and isinstance(f[0], Ref):
                return self.call(Bound(f[0], ref), args, kwargs)
        return self.type_call(ref, r, args, kwargs)

    def type_call(self, ref, r, args, kwargs):
        from . import builtins_ as bi
        if r.native in ('type', 'plaintype') :
            if len(args) == 1 and ref == self.natives['type']:
                t = self.type_of(self.resolve(args[0]))
                if t is None:
                    return Term('type', args[0])
                return t
            nw = self.class_lookup(ref, '__new__')
            if nw is not None and isinstance(nw[0], (Ref, StatM)):
                f = nw[0].f if isinstance(nw[0], StatM) else nw[0]
                cls = self.call(f, [ref] + list(args), kwargs)
            else:
                cls = bi.type_new(self, [ref] + list(args), kwargs)
            ini = self.class_lookup(ref, '__init__')
            if ini is not None and isinstance(ini[0], Ref):
                self.call(Bound(ini[0], cls), args, kwargs)
            return cls
        nw = self.class_lookup(ref, '__new__')
        if nw is not None and isinstance(nw[0], (Ref, StatM)):
            f = nw[0].f if isinstance(nw[0], StatM) else nw[0]
            obj = self.call(f, [ref] + list(args), kwargs)
            o = self.rec(obj, OInst)
            if o is None or not self.is_subclass(self.resolve(o.cls), ref):
                return obj
        elif r.native and r.native not in ('object', 'exception'):
            return bi.native_construct(self, ref, r, args, kwargs)
        else:
            obj = self.alloc(OInst(ref, {}, self.sites()))
        ini = self.class_lookup(ref, '__init__')
        if ini is not None:
            self.call(self.bind(ini[0], obj, ref), args, kwargs)
        elif r.native == 'exception':
            self.set(obj, self.get(obj).put('args', tuple(args)))
        elif args or kwargs:
            if not (nw is not None):
                self.throw('TypeError', '%s() takes no arguments' % r.name)
        if r.native == 'exception' and 'args' not in self.get(obj).attrs:
            self.set(obj, self.get(obj).put('args', tuple(args)))
        return obj

    # ---- entry points -----------------------------------------------------------------

    def run(self, fn):
        """Run fn() as a root; returns [(kind, state, value)] outcomes ('return' or 'raise')."""
        saved = self.abrupt
        self.abrupt = []
        base_frame, depth = self.frame, len(self.stack)
        out = []
        try:
            v = fn()
            out.append(('return', self.st, v))
        except Dead:
            pass
        for kind, tgt, st, v in self.abrupt:
            out.append((kind, st, v))
        self.abrupt = saved
        self.frame = base_frame
        del self.stack[depth:]
        return out
