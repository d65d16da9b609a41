"""Declarations inherited from abstract models."""
import collections
import re
from ..core import BACKENDS, NoVerdict, show_text_any
from ..interp import Ev, IfEv, StarEv, trace_list
from ..traces import functions

R_SQL = 'same-statements-as-declared-directly'
R_NUMBER = 'same-statements-with-other-subclasses'
R_SAVE = 'same-saves-as-declared-directly'

LAYOUTS = (('Alpha',), ('Alpha', 'Beta'), ('Beta', 'Alpha'), ('Alpha', 'Beta', 'Gamma'))
FORMS = ('plain', 'multi', 'chain', 'child', 'proxy')
SMALL = (('own', 'shy'), ('val', 'cloud'), ('back', 'heir', 'kids'), ('best', 'links'), ('num', 'total'), ('ckey',), ('note',))


def inherited(ctx):
    ctx.rule(R_SQL, 'the statements installed for models inheriting declarations from abstract models are those installed when every model declares them itself')
    ctx.rule(R_SAVE, 'saving, loading and rebuilding instances of such models has the same effects as when every model declares them itself')
    ctx.rule(R_NUMBER, 'the statements for one model are the same whatever other models inherit the declarations, and in whatever order')
    cases = [('sql', layout, 'plain', late, 'sqlite', None) for layout in LAYOUTS for late in (False, True)]
    cases += [('sql', LAYOUTS[1], form, False, 'sqlite', None) for form in FORMS[1:]]
    cases += [('sql', LAYOUTS[1], 'plain', False, b, None) for b in BACKENDS[1:]]
    cases += [('sql', ('Alpha', 'Beta'), 'plain', late, 'postgresql', g) for g in SMALL for late in (False, True)]
    for layout in LAYOUTS[1:]:
        for form in FORMS:
            for g in SMALL:
                if form == 'plain' or layout == LAYOUTS[1]:
                    cases.append(('save', layout, form, False, 'sqlite', g))
        cases.append(('rebuild', layout, 'plain', False, 'sqlite', None))
    cases += [('number', late, b, g) for late, b in ((False, 'sqlite'), (True, 'sqlite'), (False, 'postgresql')) for g in SMALL]
    ctx.parallel(lambda c: {'number': numbers, 'sql': statements, 'save': saves, 'rebuild': rebuilds}[c[0]](ctx, *c[1:]), cases)


def both(ctx, label, what, layout, form, late, backend, only, run=None):
    out = []
    for flat in (True, False):
        cfg = {'flat': flat, 'layout': layout, 'form': form, 'late': late, 'only': only}
        x = ctx.extraction('heir', backend, config=cfg, **({'run': run} if run else {}))
        r = ctx.ok_result(x, '%s of models %s (%s)' % (what, 'declaring fields' if flat else 'inheriting declarations', label), '%s:%s' % (label, 'direct' if flat else 'inherited'),
                          allow=('DatabaseError', 'FieldError') if run else ())
        if r is None:
            return None
        out.append((x, r))
    return out


def name(what, layout, form, late, backend, only):
    return '/'.join([what, '+'.join(layout), form, backend] + (['late'] if late else []) + (['-'.join(only)] if only else []))


def sites(x, *more):
    return functions(x.it, 'contribute_to_class', *more)


def statements(ctx, layout, form, late, backend, only):
    label = name('install', layout, form, late, backend, only)
    got = both(ctx, label, 'installing the triggers', layout, form, late, backend, only)
    if got is None:
        return
    texts = []
    for x, r in got:
        t = collections.OrderedDict()
        for e in r.execs():
            t.setdefault(re.sub(r'#\d+', '#', show_text_any(e.sql)), e)
        texts.append(t)
    (dx, d), (ix, i) = got
    ctx.ob(R_SQL, len(texts[0]))
    if not texts[0]:
        raise NoVerdict('%s: no statement' % label)
    for t in texts[0]:
        if t not in texts[1]:
            ctx.finding('%s:%s:missing' % (R_SQL, label), 'a statement installed for models that declare their fields is not installed for models that inherit them (%s)' % label,
                        texts[0][t].srcs()[:4] + sites(ix), t)
    for t in texts[1]:
        if t not in texts[0]:
            ctx.finding('%s:%s:extra' % (R_SQL, label), 'models that inherit declarations get a statement that models declaring the same fields do not get (%s)' % label,
                        texts[1][t].srcs()[:4] + sites(ix), t)
    ctx.sample('%s: %d statements equal' % (label, len(texts[0])))


def words(r):
    return collections.Counter(w for e in r.execs() for w in re.findall(r'[\w.]+', re.sub(r'#\d+', '#', show_text_any(e.sql))))


def numbers(ctx, late, backend, only):
    got = {}
    for layout in LAYOUTS:
        label = name('install', layout, 'plain', late, backend, only)
        x = ctx.extraction('heir', backend, config={'flat': False, 'layout': layout, 'late': late, 'only': only})
        r = ctx.ok_result(x, 'installing the triggers of models inheriting declarations (%s)' % label, label)
        if r is None:
            return
        got[layout] = words(r)
    for a, b in (('Alpha Beta', 'Beta Alpha'), ('Beta Alpha', 'Alpha Beta'), ('Alpha', 'Alpha Beta'), ('Alpha', 'Beta Alpha'), ('Alpha Beta', 'Alpha Beta Gamma')):
        ctx.ob(R_NUMBER, len(got[tuple(a.split())]))
        lost = got[tuple(a.split())] - got[tuple(b.split())]
        if lost:
            ctx.finding('%s:%s:%s' % (R_NUMBER, a, b), 'some of the statements for the models %s are missing when the declarations are inherited by %s (%s, %s)' % (
                a, b, '-'.join(only), backend), sites(x), ' '.join(sorted(lost)))


def renumber(evs):
    """Trace as text in which only the order of unknown values matters."""
    seen = {}

    def show(evs):
        out = []
        for e in evs:
            if isinstance(e, Ev):
                out.append('%s%r%r' % (e.name, e.args, sorted((e.kw or {}).items())))
            elif isinstance(e, IfEv):
                a, b = show(e.a), show(e.b)
                out.append('if %r: %s else: %s' % (e.c, a, b))
            elif isinstance(e, StarEv):
                out.append('for %s' % show(e.body or ()))
        return '; '.join(out)
    return re.sub(r'#\d+|\b\d{2,}\b', lambda m: seen.setdefault(m.group(), '#%d' % len(seen)), show(evs))


def compare(ctx, rule, label, what, got, start='begin'):
    out = []
    for x, r in got:
        evs = trace_list(r.state.trace)
        at = [i for i, e in enumerate(evs) if isinstance(e, Ev) and e.name == start]
        if not at:
            raise NoVerdict('%s: start not found' % label)
        out.append(evs[at[0]:])
    ctx.ob(rule, len(out[0]))
    a, b = renumber(out[0]), renumber(out[1])
    if a != b:
        x = got[1][0]
        ctx.finding('%s:%s' % (rule, label), '%s of a model that inherits declarations differs from one that declares them (%s)' % (what, label),
                    sites(x, 'pre_save'), 'declared: %s\ninherited: %s' % (a[:1500], b[:1500]))
    else:
        ctx.sample('%s: %d events equal' % (label, len(out[0])))


def saves(ctx, layout, form, late, backend, only):
    names = list(layout) + ({'child': ['Child'], 'proxy': ['Proxy']}.get(form, []))
    label = name('save', layout, form, late, backend, only)

    def run(it, x):
        m = it.import_module('shapes.heir')
        for n in names:
            for how in ('new', 'row'):
                it.call(it.getattr(m, 'save'), [n, how], {})
    got = both(ctx, label, 'saving', layout, form, late, backend, only, run)
    if got is not None:
        compare(ctx, R_SAVE, label, 'a save', got)


def rebuilds(ctx, layout, form, late, backend, only):
    label = name('rebuild', layout, form, late, backend, only)

    def run(it, x):
        m = it.import_module('shapes.heir')
        return it.call(it.getattr(m, 'rebuild'), [], {})
    got = both(ctx, label, 'rebuilding', layout, form, late, backend, only, run)
    if got is not None:
        compare(ctx, R_SAVE, label, 'rebuilding', got)
