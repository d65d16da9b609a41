"""Small table contents and row operations that cover all equality cases."""
import itertools
from .sqlparse import SqlError, show_text
from .sqlsem import Effects, Run

A, B = 'a', 'b'
PAIRS = [(None, None), (None, A), (A, None), (A, A), (A, B)]


def row(t, **kw):
    d = {c.attname: None for c in t.cols}
    for k, v in kw.items():
        if k not in d:
            raise KeyError('%s has no column %s' % (t.label, k))
        d[k] = v
    return d


def copy(world):
    return {k: [dict(r) for r in rows] for k, rows in world.items()}


def pk(t):
    return [c.attname for c in t.cols if c.pk][0]


def apply(prog, world, t, event, old, new):
    """Perform one row operation; returns (table state afterwards, effects of the triggers)."""
    w = copy(world)
    k = pk(t)
    eff = Effects()
    fire(prog, w, t, event, old, new, 'before', eff)
    if event == 'insert':
        w[t.label].append(dict(new))
    elif event == 'delete':
        w[t.label][:] = [r for r in w[t.label] if r[k] != old[k]]
    else:
        for r in w[t.label]:
            if r[k] == old[k]:
                r.update(new)
    fire(prog, w, t, event, old, new, 'after', eff)
    return w, eff


def fire(prog, w, t, event, old, new, time, eff):
    for tr in prog.triggers:
        if tr.table.label != t.label or event not in tr.events or (tr.time == 'after') != (time == 'after'):
            continue
        if tr.of is not None and event == 'update':
            names = [tr.table.find(c.a[0]).attname for c in tr.of]
            if not any(old[a] != new[a] for a in names):
                continue
        Run(prog, tr, w, dict(old) if old else None, dict(new) if new else None, eff).start()


def row_ops(world, t, domains, key, new_key, fixed=None):
    """All operations on one row: yields (world before, event, old, new).

    domains: column -> list of (old, new) pairs; columns not listed keep a constant value."""
    k = pk(t)
    names = list(domains)
    base = {c.attname: A for c in t.cols if not c.pk}
    base.update(fixed or {})

    def make(vals, pkv):
        d = {c.attname: None for c in t.cols}
        d.update(base)
        d.update(vals)
        d[k] = pkv
        return d
    singles = [sorted(set(x for p in domains[n] for x in p), key=lambda v: (v is not None, str(v))) for n in names]
    for combo in itertools.product(*singles):
        new = make(dict(zip(names, combo)), new_key)
        yield world, 'insert', None, new
        old = make(dict(zip(names, combo)), key)
        w = with_row(world, t, old)
        yield w, 'delete', old, None
    for combo in itertools.product(*[domains[n] for n in names]):
        old = make({n: c[0] for n, c in zip(names, combo)}, key)
        new = make({n: c[1] for n, c in zip(names, combo)}, key)
        yield with_row(world, t, old), 'update', old, new


def with_row(world, t, r):
    w = copy(world)
    k = pk(t)
    w[t.label] = [x for x in w[t.label] if x[k] != r[k]] + [dict(r)]
    return w


def changed(old, new, skip=()):
    return [c for c in old if c not in skip and old[c] != new[c]]


def show_op(t, event, old, new):
    def s(r):
        return '{%s}' % ', '.join('%s=%s' % (k, 'NULL' if v is None else show_value(v)) for k, v in r.items())
    if event == 'insert':
        return 'INSERT INTO %s %s' % (t.label, s(new))
    if event == 'delete':
        return 'DELETE FROM %s %s' % (t.label, s(old))
    return 'UPDATE %s %s -> %s' % (t.label, s(old), s(new))


def show_value(v):
    from .values import Term
    if isinstance(v, Term) and v.op == 'ct':
        return 'type(%s)' % v.args[0]
    return str(v)


def trigger_for(prog, t, event):
    return [tr for tr in prog.triggers if tr.table.label == t.label and event in tr.events]
