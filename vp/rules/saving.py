"""Computed values at save time."""
from ..core import NoVerdict
from ..interp import Ev, StarEv
from ..traces import flat_all, paths, functions, split, where
from ..values import Term, Ref

R_VALUE = 'column-gets-the-computed-value'
R_ATTR = 'attribute-gets-the-computed-value'
R_FK = 'relation-and-key-agree'
R_LINKS = 'links-replaced-on-save'
R_FIRST = 'links-only-of-stored-rows'

WIDE = ('text', 'word', 'number', 'big', 'share', 'ratio', 'flag', 'day', 'moment', 'slug')
LINKS = {'Linked': ('links',), 'LinkedProxy': ('links',), 'LinkedChild': ('links', 'more'), 'LinkedFirst': ('links',), 'LinkedNamed': ('links',)}
HOW = (('new', {}), ('keyed', {}), ('row', {}), ('new', {'force_insert': True}), ('keyed', {'force_insert': True}), ('row', {'force_update': True}))
AGAIN = (('new+', {}), ('row+', {}))
RETURNS = ('instance', 'proxy', 'none', 'int', 'str', 'key')


def saving(ctx):
    ctx.rule(R_VALUE, 'every insertion or update of a row writes into a computed column what its function returned for this instance just before')
    ctx.rule(R_ATTR, 'after a save the attribute of a computed field is the value written last')
    ctx.rule(R_FK, 'after a save the key of a computed foreign key is the key of what its function returned, and no other related object is remembered')
    ctx.rule(R_LINKS, 'every save ends with the links of a computed many-to-many field set to what its function returned, for a new row after its insertion')
    ctx.rule(R_FIRST, 'links are only changed of instances whose row is stored')
    cases = [('save', m, h, kw) for m in ('Wide', 'WideProxy', 'WideChild') for h, kw in HOW + (AGAIN if m == 'Wide' else ())] + [('save', 'Wide', 'row', {'update_fields': ('text', 'day')})]
    cases += [('point', m, h, kw, held, r) for m in ('Pointer', 'Sure', 'Single', 'Coded') for h, kw in (('new', {}), ('row', {}), ('row+', {}))
              for held in ('nothing', 'object', 'none') for r in RETURNS if not (m == 'Sure' and held == 'none') and (h != 'row+' or held == 'nothing' and r in ('instance', 'none', 'int'))]
    cases += [('link', m, h, kw) for m in sorted(LINKS) for h, kw in HOW + AGAIN if not (m == 'LinkedNamed' and h.startswith('new'))]
    ctx.parallel(lambda c: {'save': values, 'point': pointers, 'link': links}[c[0]](ctx, *c[1:]), cases)


def analyse(ctx, fn, label, model, how, kw, more, config=None, allow=(), resolve=True):
    def run(it, x):
        m = it.import_module('shapes.calc')
        return it.call(it.getattr(m, fn), [it.getattr(m, model), how, it.new_dict(kw.items())] + list(more), {})
    x = ctx.extraction('calc', 'sqlite', config=config or {}, run=run)
    r = ctx.ok_result(x, 'saving an instance with computed fields (%s)' % label, label, allow=allow)
    if r is None:
        return None, ()
    out = []
    for p in paths(r, args=True) if resolve else paths(r, ()):
        if not resolve:
            p.value = x.it.freeze(r.value)
        start = [i for i, e in enumerate(p.events) if isinstance(e, Ev) and e.name == 'begin']
        if len(start) != 1:
            raise NoVerdict('the start of the save was not found')
        evs = p.events[start[0]:]
        evs = [e for e in evs if not isinstance(e, StarEv) or any(f.name in ('db', 'save', 'computed') for f, loops in flat_all(e.body or (), p.facts, ()))]
        if not all(isinstance(e, Ev) for e in evs):
            raise NoVerdict('a save with a loop over unknown things')
        out.append((p, evs, evs[0].args[0]))
    return x, out


def writes(evs):
    return [(i, e) for i, e in enumerate(evs) if e.name == 'db' and e.args[0] in ('row_insert', 'row_update')]


def named(how, kw):
    return how + ''.join('/' + k for k in sorted(kw))


def values(ctx, model, how, kw):
    label = 'save/%s/%s' % (model, named(how, kw))
    wide = WIDE + (('extra',) if model == 'WideChild' else ())
    x, found = analyse(ctx, 'save', label, model, how, kw, [wide], allow=('DatabaseError',), resolve=False)
    if x is None:
        return
    here = functions(x.it, 'pre_save')
    for p, evs, obj in found:
        done = {}
        for i, e in writes(evs):
            for n, v in e.args[4]:
                if n in wide:
                    done.setdefault(n, []).append((i, v))
        missing = [n for n in (kw.get('update_fields') or wide) if n not in done]
        if missing:
            ctx.finding('%s:%s:unwritten' % (R_VALUE, label), 'the computed field %s is not written by a save (%s)' % (missing[0], label), here)
        for n in done:
            made = [[f for f in evs[:i] if f.name == 'computed' and f.args[0] == n] for i, v in done[n]]
            got = tuple((v, f[-1].result if f and f[-1].args[1] == obj else 'not computed') for (i, v), f in zip(done[n], made))
            ctx.ob(R_VALUE, len(got))
            ctx.ob(R_ATTR)
            for (pairs, attr), facts in split((got, p.value[wide.index(n)]), p.facts):
                if any(v != w for v, w in pairs):
                    ctx.finding('%s:%s:%s' % (R_VALUE, label, n), 'the column of the computed field %s is written with something else than what its function returned (%s)' % (n, label), here)
                if attr != pairs[-1][0]:
                    ctx.finding('%s:%s:%s' % (R_ATTR, label, n), 'after a save the attribute %s differs from the written value (%s)' % (n, label), here)
        if done:
            ctx.sample('%s: %d columns' % (label, len(done)))


def pointers(ctx, model, how, kw, held, returns):
    label = 'point/%s/%s/%s/%s' % (model, named(how, kw), held, returns)
    x, found = analyse(ctx, 'point', label, model, how, kw, [held], {'returns': returns})
    if x is None:
        return
    here = functions(x.it, 'pre_save')
    for p, evs, obj in found:
        w = writes(evs)
        if not w:
            ctx.finding('%s:%s:unwritten' % (R_VALUE, label), 'a save writes no row (%s)' % label, here)
            continue
        want = None
        for i, e in w:
            ctx.ob(R_VALUE)
            made = [f for f in evs[:i] if f.name == 'computed' and f.args[0] == 'best' and f.args[1] == obj]
            if not made:
                ctx.finding('%s:%s:call' % (R_VALUE, label), 'a row is written without computing the foreign key before (%s)' % label, here)
                continue
            want = made[-1].args[4] if model == 'Coded' else made[-1].args[3]
            if dict(e.args[4]).get('best', 'nothing') != want:
                ctx.finding('%s:%s' % (R_VALUE, label), 'the key column of a computed foreign key is not the key of what its function returned (%s)' % label, here)
        key, seen, seen_key = p.value
        ctx.ob(R_FK)
        if key != want:
            ctx.finding('%s:%s:key' % (R_FK, label), 'after a save the key of a computed foreign key is not that of what its function returned (%s)' % label, here)
        if seen == 'nothing':
            continue
        if (seen is None and want is not None) or (seen is not None and seen_key != want):
            ctx.finding('%s:%s:object' % (R_FK, label), 'after a save the instance remembers a related object that does not belong to the key (%s)' % label, here)
        else:
            ctx.sample('%s: remembered object agrees' % label)


def links(ctx, model, how, kw):
    label = 'link/%s/%s' % (model, named(how, kw))
    x, found = analyse(ctx, 'link', label, model, how, kw, [], allow=('DatabaseError',))
    if x is None:
        return
    here = functions(x.it, 'many_to_many_pre_save', 'many_to_many_post_save')
    for p, evs, obj in found:
        inserted = [i for i, e in enumerate(evs) if e.name == 'db' and e.args[0] == 'row_insert']
        tables = [evs[i].args[1] for i in inserted]
        if model == 'LinkedChild' and 'calc.Linked' in tables and 'calc.LinkedChild' not in tables:
            continue        # there is no child row without its parent row
        ops = [(i, e) for i, e in enumerate(evs) if e.name == 'db' and e.args[0].startswith('m2m_')]
        for i, e in ops:
            ctx.ob(R_FIRST)
            if e.args[5] is not False:
                ctx.finding('%s:%s' % (R_FIRST, label), 'links are changed of an instance that may have no row yet (%s)' % label, where(e))
            if e.args[1] not in LINKS[model]:
                ctx.finding('%s:%s:%s' % (R_LINKS, label, e.args[1]), 'links of a many-to-many field that is not computed are changed (%s)' % label, where(e))
        for n in LINKS[model]:
            ctx.ob(R_LINKS)
            mine = [(i, e) for i, e in ops if e.args[1] == n]
            if not mine:
                ctx.finding('%s:%s:%s' % (R_LINKS, label, n), 'a save does not set the links of the computed many-to-many field %s (%s)' % (n, label), here)
                continue
            i, e = mine[-1]
            if e.args[0] == 'm2m_add' and len(mine) > 1 and mine[-2][1].args[0] == 'm2m_clear':
                got, i = e.args[4], mine[-2][0]
            elif e.args[0] == 'm2m_set':
                got = e.args[4]
            else:
                ctx.finding('%s:%s:%s:op' % (R_LINKS, label, n), 'the links of the computed many-to-many field %s are not replaced but changed by %s (%s)' % (
                    n, e.args[0][4:], label), where(e))
                continue
            made = [f for f in evs[:mine[-1][0]] if f.name == 'computed' and f.args[0] == n and f.args[1] == obj]
            if not made or not same(got, made[-1].result):
                ctx.finding('%s:%s:%s:value' % (R_LINKS, label, n), 'the links of %s are set to something else than what its function returned (%s)' % (n, label), where(e))
            if e.args[2] is not False or e.args[3] != p.value:
                ctx.finding('%s:%s:%s:whose' % (R_LINKS, label, n), 'the links of an other instance are set (%s)' % label, where(e))
            if inserted and (not made or i < inserted[-1] or evs.index(made[-1]) < inserted[-1]):
                ctx.finding('%s:%s:%s:late' % (R_LINKS, label, n), 'after the insertion of a row the links of %s are not set (%s)' % (n, label), here)
            else:
                ctx.sample('%s: links of %s set' % (label, n))


def same(got, want):
    """The links are what the function returned, as such or as a collection of all of it."""
    if got == want:
        return True
    while isinstance(got, (Term, tuple)):
        if isinstance(got, tuple) and len(got) == 3 and got[0] == 'for':
            got = got[2]
            if not isinstance(got, Term) or got.op != 'elem':
                return False
        args = got.args if isinstance(got, Term) else got
        if isinstance(got, Term) and got.op not in ('list', 'tuple', 'set', 'iter', 'star', 'sorted', 'elems', 'elem'):
            return False
        args = [a for a in args if isinstance(a, (Term, tuple))]
        if len(args) != 1:
            return False
        got = args[0]
        if got == want:
            return True
    return False
