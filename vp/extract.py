"""Runs the analysis on a model set (a "shape") and collects the statements it would execute."""
import os
import warnings
from .interp import Interp, trace_list, Ev, IfEv, StarEv, Unsupported
from .values import Term, SStr, Ite, Ref, LStr, neg, sparts
from . import project, realnames
from .sqlparse import src_at, show_text
from .sqlsem import Schema, Table, Col

warnings.simplefilter('ignore')
SHAPES = os.path.join(project.HERE, 'shapes')
BACKENDS = ('sqlite', 'mysql', 'postgresql')


def finder(name):
    if name.startswith('shapes.'):
        p = os.path.join(SHAPES, name[7:] + '.py')
        if os.path.isfile(p):
            return (p, 'shapes/%s.py' % name[7:], False, False)
        return None
    if name == 'shapes':
        return (os.path.join(SHAPES, '__init__.py'), 'shapes/__init__.py', True, False)
    return project.finder(name)


class Exec(object):
    """One executed statement."""
    def __init__(self, alias, sql, params, conds, ev, order):
        self.alias, self.sql, self.params, self.conds, self.ev, self.order = alias, sql, params, conds, ev, order

    def srcs(self):
        """Source lines whose literals make up the text."""
        out = []
        for p in flat_parts(self.sql):
            if isinstance(p, LStr):
                for a, b, s in p.segs:
                    if s is not None and s not in out:
                        out.append(s)
        return out

    def src(self):
        s = self.srcs()
        return s[0] if s else None


def flat_parts(v):
    out = []
    for p in sparts(v):
        if isinstance(p, Ite):
            out += flat_parts(p.a) + flat_parts(p.b)
        elif isinstance(p, SStr):
            out += flat_parts(p)
        else:
            out.append(p)
    return out


def flatten(evs, conds=(), loop=()):
    """Events of a trace with the conditions and loops they are under."""
    for e in evs:
        if isinstance(e, Ev):
            yield e, conds, loop
        elif isinstance(e, IfEv):
            for x in flatten(e.a, conds + ((e.c, True),), loop):
                yield x
            for x in flatten(e.b, conds + ((e.c, False),), loop):
                yield x
        elif isinstance(e, StarEv):
            for x in flatten(e.body or (), conds, loop + (e,)):
                yield x


class Result(object):
    """Outcome of one analysis run."""
    def __init__(self, it, kind, state, value):
        self.it, self.kind, self.state, self.value = it, kind, state, value

    def use(self):
        self.it.st = self.state
        return self

    def events(self):
        return list(flatten(trace_list(self.state.trace)))

    def execs(self):
        out = []
        for i, (e, conds, loop) in enumerate(self.events()):
            if e.name == 'execute':
                ps = e.args[2]
                if isinstance(ps, tuple) and ps and ps[0] == 'list':
                    ps = ps[1:]
                out.append(Exec(e.args[0], e.args[1], ps, conds, e, i))
        return out

    def error(self):
        """(class name, message) when the run ends in an exception."""
        self.use()
        r = self.it.get(self.value)
        args = r.attrs.get('args')
        cls = self.it.get(r.cls)
        return cls.name, args


class Extraction(object):
    def __init__(self, shape=None, backend='sqlite', config=None, run=None, install=True, using=None, imports=('denorm', 'denorm.models')):
        cfg = {'backend': backend, 'real_names': realnames.names}
        cfg.update(config or {})
        self.backend, self.shape = backend, shape
        self.it = it = Interp(finder, cfg)
        self.schema_raw = None
        self.extra = None

        def go():
            for m in imports:
                it.import_module(m)
            if shape:
                it.import_module('shapes.' + shape)
                d = it.import_module('vpdump')
                if not cfg.get('refused'):
                    self.schema_raw = it.freeze(it.call(it.getattr(d, 'schema'), [], {}))
            if run is not None:
                return run(it, self)
            if install:
                m = it.import_module('denorm.denorms')
                return it.call(it.getattr(m, 'install_triggers'), [], {} if using is None else {'using': using})
        self.results = [Result(it, k, st, v) for k, st, v in it.run(go)]

    @property
    def schema(self):
        if self.schema_raw is None:
            raise Unsupported('model set did not load')
        ts = []
        for label, db_table, cols, proxy in self.schema_raw:
            ts.append(Table(label, db_table, [Col(*c) for c in cols], proxy))
        return Schema(ts)

    def single(self):
        if len(self.results) != 1:
            raise Unsupported('%d outcomes where one was expected: %s' % (
                len(self.results), '; '.join(r.kind if r.kind == 'return' else 'raise %s%r' % r.error() for r in self.results)))
        return self.results[0]
