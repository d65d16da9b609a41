"""Which relation a dependency follows (C14)."""
import itertools
from ..core import NoVerdict
from ..interp import Ev
from ..sqlparse import SqlError
from ..traces import functions
from ..worlds import row, apply, pk, A, B
from .marks import ct

R_ONE = 'the-only-matching-relation-is-followed'
R_REFUSED = 'no-or-several-matching-relations-are-refused'

FORWARD = ('fa', 'fb', 'fo', 'ma', 'mb', 'ga')
BACKWARD = ('ba', 'bb', 'bo', 'na', 'nb')
SELF = ('sa', 'sb', 'sm', 'sn')
TYPES = (None, 'forward', 'backward', 'forward_m2m', 'backward_m2m')
FORMS = (('class', 'class', 'other'), ('name', 'name', 'other'), ('name', 'class', 'other'), ('dotted', 'name', 'this'), ('name', 'dotted', 'this'), ('class', 'dotted', 'other'),
         ('dotted', 'class', 'other'), ('upper', 'name', 'this'), ('name', 'name', 'this'))
SELF_FORMS = (('self', 'self', 'this'), ('name', 'name', 'this'), ('self', 'dotted', 'this'), ('name', 'self', 'this'))
KINDS = ('val', 'ckey', 'note')
BATCH = 4


def key(r):
    return r[0] in 'fb' or r in ('sa', 'sb')


def called(r):
    """Name of the field; that of those ending in z is the same."""
    return 'zed' if r[1] == 'z' else r


def matching(rels, name, type_):
    """(relation, direction) of the relations that a declaration may mean."""
    out = []
    for r in rels:
        if name is not None and name != called(r) and not (key(r) and name == called(r) + '_id'):
            continue
        many = '' if key(r) else '_m2m'
        if r[0] == 's':
            if type_ in (None, 'forward' + many):
                out.append((r, 'forward'))
            if type_ == 'backward' + many:
                out.append((r, 'backward'))
        else:
            d = 'forward' if r[0] in 'fmg' else 'backward'
            if type_ in (None, d + many):
                out.append((r, d))
    return out


def declarations():
    """(relations, target, form, name, type, first, kind, noise)"""
    out = []
    n = itertools.count()

    def add(rels, name, type_, forms, noise=False):
        i = next(n)
        target, form, first = forms[i % len(forms)]
        if form == 'class' and first == 'this':
            form = 'name'
        out.append((rels, target, form, name, type_, first, KINDS[i % 7 % 3], noise or i % 5 == 0))
    for r in FORWARD + BACKWARD:
        for f in FORMS:
            out.append(((r,), f[0], f[1] if f[2] == 'other' else 'name', None, None, f[2], KINDS[len(out) % 3], True))
    sets = [()] + [(r,) for r in FORWARD + BACKWARD] + list(itertools.combinations(FORWARD + BACKWARD, 2))
    sets += [('fa', 'ma', 'ba'), ('fa', 'fb', 'fo'), ('fa', 'ma', 'ba', 'na'), ('ma', 'mb', 'na'), ('ba', 'bb', 'fa')]
    sets += [('fa', 'fax'), ('ba', 'bax'), ('ma', 'max'), ('fz', 'bz'), ('mz', 'nz'), ('fz', 'nz'), ('mz', 'bz'), ('fz', 'bz', 'fa')]
    sets += [('fp',), ('bp',), ('fp', 'fa'), ('bp', 'bo'), ('fp', 'ma'), ('bp', 'na'), ('fp', 'ba'), ('bp', 'fo')]
    for rels in sets:
        names = [None] + sorted(set(called(r) for r in rels))
        for name in names:
            for t in TYPES:
                add(rels, name, t, FORMS)
        for name in ['zz', 'th', 'tm'] + [called(r) + '_id' for r in rels[:1]]:
            for t in TYPES if len(rels) == 1 else (None,):
                add(rels, name, t, FORMS, name in ('th', 'tm'))
    for rels in [(r,) for r in SELF] + list(itertools.combinations(SELF, 2)):
        for name in [None] + list(rels):
            for t in TYPES:
                add(rels, name, t, SELF_FORMS)
        for name in ('zz', 'th', rels[0] + '_id'):
            add(rels, name, None, SELF_FORMS, True)
    return out


def resolved(ctx):
    ctx.rule(R_ONE, 'a change of the other row reaches exactly the rows linked to it through the only relation that the declaration may mean')
    ctx.rule(R_REFUSED, 'a declaration that may mean no or more than one relation is refused when the models are set up or the triggers are made')
    good, bad = [], []
    for g, d in enumerate(declarations()):
        (good if len(matching(d[0], d[3], d[4])) == 1 else bad).append((g,) + d)
    bad += [(100000 + i, ('fa',), 'name', 'name', n, t, 'this', k, False) for i, (n, t, k) in enumerate(itertools.product((None, 'fa'), ('sideways',), KINDS))]
    cases = [(followed, good[i:i + BATCH]) for i in range(0, len(good), BATCH)] + [(refused, bad[i:i + BATCH]) for i in range(0, len(bad), BATCH)]
    ctx.parallel(lambda c: c[0](ctx, c[1]), cases)


def show(case):
    g, rels, target, form, name, type_, first, kind, noise = case
    return '%s: relations %s referring by %s, depending on the other model by %s%s%s, %s' % (
        kind, '+'.join(rels) or 'none', target, form, ', named %s' % name if name else '', ', %s' % type_ if type_ else '', '%s declared first' % first)


def brief(case):
    g, rels, target, form, name, type_, first, kind, noise = case
    return '%s/%s/%s/%s' % (kind, '+'.join(rels), name, type_)


def sites(x):
    return functions(x.it, 'resolved_model', 'find_fks', 'find_m2ms') or functions(x.it, 'setup')


def config(cases, **kw):
    return dict({'cases': tuple(cases), 'settings': {'DENORM_BULK_UNSAFE_TRIGGERS': True}}, **kw)


def refused(ctx, cases):
    x = ctx.extraction('link', 'sqlite', config=config(cases, refused=True), install=False)
    r = ctx.ok_result(x, 'setting up models', 'refused')
    if r is None:
        return
    said = {}
    for e, conds, loops in r.events():
        if e.name in ('refused', 'accepted'):
            if conds or loops or e.args[0] in said:
                raise NoVerdict('outcome of a declaration depends on something unknown')
            said[e.args[0]] = e
    for c in cases:
        ctx.ob(R_REFUSED)
        if c[0] not in said:
            raise NoVerdict('no outcome for %s' % show(c))
        if said[c[0]].name == 'accepted':
            y = ctx.extraction('link', 'sqlite', config=config([c]))
            if any(o.kind != 'raise' for o in y.results):
                ctx.finding('%s:%s' % (R_REFUSED, brief(c)), 'a dependency is accepted although %d relations match (%s)' % (len(matching(c[1], c[4], c[5])), show(c)), sites(y))
        else:
            ctx.sample('refused: %s' % show(c))


def followed(ctx, cases):
    x = ctx.extraction('link', 'sqlite', config=config(cases))
    if any(r.kind == 'raise' for r in x.results) and len(cases) > 1:
        for c in cases:
            followed(ctx, [c])
        return
    if len(cases) == 1:
        r = ctx.ok_result(x, 'setting up and installing a dependency with one matching relation (%s)' % show(cases[0]), '%s:%s' % (R_ONE, brief(cases[0])))
        if r is None:
            ctx.ob(R_ONE)
            return
    prog = ctx.program('link', 'sqlite', config=config(cases))
    if prog is None:
        return
    for c in cases:
        ctx.ob(R_ONE)
        probe(ctx, prog, x, c)


def probe(ctx, prog, x, case):
    g, rels, target, form, name, type_, first, kind, noise = case
    (want, direction), = matching(rels, name, type_)
    this = prog.schema['app.This%d' % g]
    single = rels[0][0] == 's'
    other = this if single else prog.schema['app.Other%d' % g]
    here = ct(this.label)
    rows = {i: {} for i in (1, 2)} if single else {}
    source = {1: dict(title=A), 2: dict(title=A)} if not single else rows
    w = {}
    for n, r in enumerate(rels):
        for i in (1, 2):
            if r[1] == 'p':
                # the reference is the key
                rows[i] = rows.get(i, {})
                continue
            near, far = 10 * i + n, 30 * i + n
            rows[near] = rows.get(near, {})
            if r[0] in 'fmg' or r[0] == 's':
                if key(r):
                    rows[near][called(r) + '_id'] = i
                elif r[0] == 'g':
                    source[i].update(content_type_id=here, object_id=near)
                else:
                    link = prog.schema['%s_%s' % (this.label, called(r))]
                    a, b = ends(link, this, other)
                    w.setdefault(link.label, []).append(row(link, **{pk(link): near, a: near, b: i}))
            if r[0] in 'bns':
                to = far if r[0] == 's' else near
                rows[to] = rows.get(to, {})
                if key(r):
                    source[i][called(r) + '_id'] = to
                elif r[0] == 's':
                    link = prog.schema['%s_%s' % (this.label, called(r))]
                    a, b = ends(link, this, other)
                    w.setdefault(link.label, []).append(row(link, **{pk(link): to, a: i, b: to}))
                else:
                    link = prog.schema['%s_%s' % (other.label, called(r))]
                    a, b = ends(link, other, this)
                    w.setdefault(link.label, []).append(row(link, **{pk(link): near, a: i, b: near}))
    expected = 1 if want[1] == 'p' else (30 if single and direction == 'backward' else 10) + rels.index(want)
    w[this.label] = [row(this, **dict(v, **{pk(this): i})) for i, v in sorted(rows.items())]
    if not single:
        w[other.label] = [row(other, **dict(v, **{pk(other): i})) for i, v in sorted(source.items())]
    old = [r for r in w[other.label] if r[pk(other)] == 1][0]
    col = 'note' if single else 'title'
    new = dict(old, **{col: B})
    for t in prog.schema.tables:
        w.setdefault(t.label, [])
    try:
        w2, eff = apply(prog, w, other, 'update', old, new)
    except SqlError as e:
        ctx.finding('%s:%s:error' % (R_ONE, brief(case)), 'the update trigger fails: %s (%s)' % (e, show(case)), [e.src] + sites(x))
        return
    if kind == 'val':
        got = set(eff.mark_set(here))
    else:
        got = set(r[pk(this)] for label, r, c, a, b, s in eff.updates if label == this.label and c == 'val')
    if got != {expected}:
        ctx.finding('%s:%s' % (R_ONE, brief(case)), 'a dependency does not follow the only relation it may mean: rows %s are reached instead of %d (%s)' % (
            sorted(got), expected, show(case)), sites(x))
    else:
        ctx.sample('follows %s: %s' % (want, show(case)))


def ends(link, a, b):
    """Columns of a link table to its two models."""
    names = [c.attname for c in link.cols if not c.pk]
    if len(names) != 2:
        raise NoVerdict('link table with columns %s' % names)
    return names
