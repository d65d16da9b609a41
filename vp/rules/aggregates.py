"""Count and sum fields (C07, C08)."""
from ..core import BACKENDS, NoVerdict
from ..sqlparse import SqlError
from ..traces import paths, functions
from ..values import Term
from ..worlds import row, row_ops, apply, pk, changed, show_op
from .marks import blame, statement_text, KEYPAIRS

R_DELTA = 'stored aggregates follow the matching child rows'
R_SAVE = 'saving keeps the stored aggregate'

CONDITIONS = [
    dict(),
    dict(filter=(('active__exact', True),)),
    dict(filter=(('n__gt', 4),)),
    dict(filter=(('active', True), ('n__lte', 3))),
    dict(filter=(('n__isnull', False),)),
    dict(filter=(('kind', 1),)),
    dict(exclude=(('active', True),)),
    dict(exclude=(('active', True), ('n', 5))),
    dict(exclude=(('kind', 1),)),
    dict(filter=(('active', True),), exclude=(('n', 5),)),
    dict(filter=(('kind__gte', 1), ('active', True)), exclude=(('n__lt', 5), ('kind', 2))),
    dict(filter=(('n__in', (3, 5)),), exclude=(('kind', 2),)),
]
VARIANTS = ('plain', 'keys', 'two', 'same', 'named', 'code', 'strict', 'self')


def aggregates(ctx):
    ctx.rule(R_DELTA, 'for every row operation on the child table the change a trigger makes to each stored count or sum equals the change of the aggregate over the matching rows')
    cases = [(b, v, c) for b in BACKENDS for v in VARIANTS for c in CONDITIONS if not (b == 'sqlite' and c)]
    ctx.parallel(lambda c: case(ctx, *c), cases)
    refused(ctx)


def refused(ctx):
    """Conditions a backend cannot express are refused instead of ignored."""
    for c in CONDITIONS[1:]:
        x = ctx.extraction('agg', 'sqlite', config=c)
        ctx.ob(R_DELTA)
        for r in x.results:
            if r.kind == 'raise' and r.error()[0] == 'NotImplementedError':
                continue
            if r.kind == 'raise':
                ctx.ok_result(x, 'declaring an aggregate with conditions on SQLite', 'agg/sqlite')
                continue
            prog = ctx.program('agg', 'sqlite', config=c)
            if prog is not None:
                run_case(ctx, prog, 'sqlite', 'plain', c)


def test(lookup, value, r):
    name, _, op = lookup.partition('__')
    v = r[name]
    op = op or 'exact'
    if op == 'isnull':
        return (v is None) == value
    if v is None:
        return None
    if op == 'exact':
        return int(v) == int(value)
    if op == 'in':
        return v in value
    return {'gt': v > value, 'gte': v >= value, 'lt': v < value, 'lte': v <= value}[op]


def matches(c, r):
    for lookup, value in c.get('filter', ()):
        if test(lookup, value, r) is not True:
            return False
    ex = c.get('exclude', ())
    return not ex or not all(test(l, v, r) is True for l, v in ex)


def case(ctx, backend, variant, c):
    prog = ctx.program('agg', backend, config=dict(c, variant=variant))
    if prog is not None:
        run_case(ctx, prog, backend, variant, c)


def fields(variant, c):
    """field -> (foreign key column, summed column or None, conditions)"""
    f = {'num': ('parent_id', None, c), 'total': ('parent_id', 'n', c)}
    if variant == 'two':
        f['num2'] = ('other_id', None, {})
        f['total2'] = ('other_id', 'n', {})
    if variant == 'same':
        f['num2'] = ('parent_id', None, {'filter': (('kind__gte', 2),)} if c else {})
        f['total2'] = ('parent_id', 'n', {'exclude': (('n', 5),)} if c else {})
    return f


def run_case(ctx, prog, backend, variant, c):
    name = '%s/%s%s' % (backend, variant, ''.join(' %s=%s' % (k, dict(v)) for k, v in sorted(c.items())))
    parent = prog.schema['app.Parent']
    child = parent if variant == 'self' else prog.schema['app.Child']
    kp, kc = pk(parent), pk(child)
    agg = fields(variant, c)
    stored = {'num': 100, 'total': 1000, 'num2': 200, 'total2': 2000}
    parents = [row(parent, **dict({kp: i}, **{a: stored[a] + i for a in agg})) for i in (1, 2, 3)]
    # one parent has few children, whose amounts may cancel each other out
    parents[1].update({a: 1 for a in agg})
    if variant == 'self':
        for r in parents:
            r.update(kind=1)
        world = {'app.Parent': parents}
    else:
        world = {'app.Parent': parents, 'app.Child': [row(child, **{kc: 1, 'parent_id': 3, 'kind': 1}), row(child, **{kc: 3, 'parent_id': 1, 'n': 5, 'kind': 1})]}
    kr = kp
    if variant == 'code':
        # the foreign key holds codes, which differ from the keys
        kr = 'code'
        for r, v in zip(parents, (2, 3, 1)):
            r['code'] = v
    ns = [None, 3, 5, -4]
    doms = {'parent_id': KEYPAIRS, 'n': [(x, y) for x in ns for y in ns], 'active': [(x, y) for x in (None, True, False) for y in (None, True, False)],
            'kind': [(1, 1), (2, 2), (1, 2), (2, 1)]}
    used = repr(c)
    if 'active' not in used:
        doms['active'] = [(True, True), (True, False), (None, True)]
    if 'kind' not in used:
        doms['kind'] = [(1, 1), (1, 2)]
    if variant == 'two':
        doms['other_id'] = [(1, 1), (1, 2), (None, 2), (2, None)]
        doms['n'] = [(x, y) for x in (None, 3, 5) for y in (None, 3, 5)]
        doms['kind'] = doms['kind'][:3]
    if variant == 'strict':
        doms['parent_id'] = [p for p in KEYPAIRS if None not in p]
    if variant == 'self':
        doms['kind'] = doms['kind'][:3]
    fixed = {a: stored[a] for a in agg} if variant == 'self' else {}
    for wb, event, old, new in row_ops(world, child, doms, 7, 8, fixed):
        ctx.ob(R_DELTA, len(agg))
        key = '%s:%s:%s' % (R_DELTA, name, event)
        try:
            w2, eff = apply(prog, wb, child, event, old, new)
        except SqlError as e:
            ctx.finding(key + ':error', 'on %s the %s trigger fails: %s' % (name, event, e), [e.src] + blame(prog, child, event, None, None), statement_text(prog, child, event))
            return
        if eff.marks or eff.inserts or eff.deletes:
            ctx.finding(key + ':effects', '%s has effects other than adjusting aggregates (%s)' % (show_op(child, event, old, new), name), blame(prog, child, event, eff, None), statement_text(prog, child, event))
        after = {r[kp]: r for r in w2['app.Parent']}
        for r in wb['app.Parent'] if variant != 'self' else [r for r in wb['app.Parent'] if r[kp] != 7]:
            a2 = after.get(r[kp])
            for f, (fk, summed, cond) in agg.items():
                want = 0
                for sign, rr in ((1, new), (-1, old)):
                    if rr is not None and rr[fk] == r[kr] and matches(cond, rr):
                        want += sign * (1 if summed is None else (rr[summed] or 0))
                got = None if a2 is None or a2[f] is None else a2[f] - r[f]
                if got != want:
                    ctx.finding('%s:%s' % (key, f), '%s changes %s of its row %s by %s instead of %s (%s)' % (show_op(child, event, old, new), f, r[kp], got, want, name),
                                blame(prog, child, event, eff, None), statement_text(prog, child, event))
            if a2 is not None:
                for col in changed(r, a2):
                    if col not in agg:
                        ctx.finding('%s:column:%s' % (key, col), '%s changes column %s (%s)' % (show_op(child, event, old, new), col, name), blame(prog, child, event, eff, None), statement_text(prog, child, event))
    ctx.sample('%s: %s' % (name, ', '.join(sorted(agg))))


# ---- C08 -------------------------------------------------------------------------------------------

def saving(ctx):
    ctx.rule(R_SAVE, 'the value a save writes for an aggregate column is read from the database for that row in the same save, and is zero for a row that does not exist')
    for variant in ('plain', 'keys', 'two', 'self', 'hidden'):
        for how in ('new', 'keyed', 'loaded', 'loaded+'):
            if variant == 'keys' and how == 'new':
                continue        # such rows need an explicit key
            for kw in ({}, {'force_insert': True}, {'force_update': True}, {'update_fields': ('num',)}):
                if how == 'new' and kw and 'force_insert' not in kw or how.startswith('loaded') and 'force_insert' in kw:
                    continue
                save_case(ctx, variant, how, kw)


def save_case(ctx, variant, how, kw):
    name = '%s/%s%s' % (variant, how, ''.join('/' + x for x in kw))
    agg = ('num', 'total')

    def run(it, x):
        d = it.import_module('shapes.drive')
        m = it.getattr(it.import_module('shapes.agg'), 'Parent')
        k = dict(kw)
        k['over'] = True
        return it.call(it.getattr(d, 'save_over'), [m, how, it.new_list(agg), it.new_dict(list(kw.items()))], {})
    x = ctx.extraction('agg', 'sqlite', config={'variant': 'plain' if variant == 'hidden' else variant, 'hidden': variant == 'hidden'}, run=run)
    r = ctx.ok_result(x, 'saving a row with count and sum fields', 'save/' + name, allow=('DatabaseError',))
    if r is None:
        return
    n = 0
    at = functions(x.it, 'pre_save')
    for p in paths(r, args=True):
        last = {}
        reads = {}
        for e in after_begin(p):
            args = e.args
            kind, label = args[0], args[1]
            if label != 'app.Parent':
                continue
            if kind in ('row_update', 'row_insert'):
                vals = dict(args[4])
                for f in agg:
                    if f not in vals:
                        if kw.get('update_fields') and f not in kw['update_fields']:
                            continue
                        ctx.finding('%s:%s:missing:%s' % (R_SAVE, name, f), 'saving leaves out the column %s (%s)' % (f, name), at)
                        continue
                    ctx.ob(R_SAVE)
                    n += 1
                    v = vals[f]
                    last[f] = v
                    src = origin(v, f)
                    exists = None
                    if src is not None and src in reads:
                        exists = True
                    bad = None
                    if kind == 'row_insert':
                        # a row inserted now did not exist: nothing can be counted for it yet
                        if v != 0 and src is None:
                            bad = 'writes %r for a new row instead of 0' % (v,)
                        elif v != 0:
                            bad = 'writes a value read from an other row for a new row'
                    elif src is None:
                        # zero is right only where the database has no such row
                        empty = [q for q in reads.values() if any(p.has(Term('atom', 'nonempty', x)) is False for x in (q, Term('rows', q)))]
                        if not (v == 0 and empty):
                            bad = 'writes %r instead of the value stored in the database' % (v,)
                    elif src not in reads:
                        bad = 'writes a value that was not read in this save'
                    if bad:
                        ctx.finding('%s:%s:%s:%s' % (R_SAVE, name, kind, f), 'saving %s (%s of %s, %s)' % (bad, kind.split('_')[1], f, name), at)
            elif e.result is not None and own_row(args[3], p):
                reads[e.result] = e.result
        for f, v in zip(agg, p.value):
            if f in last and v != last[f]:
                ctx.finding('%s:%s:attribute:%s' % (R_SAVE, name, f), 'after saving the instance holds %r in %s, its row %r (%s)' % (v, f, last[f], name), at)
    if not n:
        raise NoVerdict('saving an instance wrote nothing in %s' % name)


def after_begin(p):
    """Accesses to the database by the save that is looked at."""
    start = [i for i, e in enumerate(p.events) if getattr(e, 'name', None) == 'begin']
    if len(start) != 1:
        raise NoVerdict('the start of the save was not found')
    first = p.events[start[0]]
    seen = False
    for e in p.named('begin', 'db'):
        if e is first:
            seen = True
        elif seen and e.name == 'db':
            yield e


def origin(v, f):
    """Result of the query a value of column f comes from."""
    if isinstance(v, Term) and v.op in ('attr',) and v.args[1] == f and isinstance(v.args[0], Term) and v.args[0].op == 'elem':
        src = v.args[0].args[0]
        return src.args[0] if isinstance(src, Term) and src.op == 'rows' else src
    return None


def own_row(ops, p):
    """The query is restricted to the row being saved and hides nothing else."""
    seen = False
    for op in ops:
        if op[0] == 'filter':
            for k, v in [x for x in op[1] if isinstance(x, tuple) and len(x) == 2]:
                if k in ('pk', 'id', 'pkey', 'pk__exact', 'id__exact', 'pkey__exact') and is_own_pk(v):
                    seen = True
                else:
                    return False
        elif op[0] == 'slice':
            lo, hi, step = op[1]
            if lo not in (None, 0) or hi is not None and not (isinstance(hi, int) and hi > 0):
                return False
        elif op[0] not in ('values', 'order_by', 'only', 'distinct', 'select_for_update', 'defer'):
            return False
    return seen


def is_own_pk(v):
    return isinstance(v, Term) and (v == Term('sym', 'pk', 'key') or v.op == 'key' and v.args[0] == Term('sym', 'row', 'any'))
