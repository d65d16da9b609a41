"""Cached function fields."""
from ..core import NoVerdict
from ..interp import Ev
from ..traces import paths, functions, where
from ..values import Term, SStr

R_KEY = 'cache-key-tells-rows-apart'
R_OWN = 'value-belongs-to-the-key'
R_NONE = 'no-key-no-cache'
R_SAVE = 'saved-key-is-the-shown-key'

CASES = [('assign', m, n, v) for m, n in (('Book', 'text'), ('Paper', 'inherited'))
         for v in (('k',), ('k', 'l'), (0,), (0, 'k'), ('k', 0), ('k', 'l', 'k'))]
CASES += [('pair', m, n, v) for m, n in (('Book', 'text'), ('Paper', 'inherited')) for v in (('k', 'l'), ('k', 0), (0, 'k'), (0, 0))]
CASES += [('create', m, n) for m, n in (('Book', 'text'), ('Paper', 'inherited'))]
CASES += [('load', m, n) for m, n in (('Book', 'text'), ('Paper', 'inherited'))]
CASES += [('save', m, n, how) for m, n in (('Book', 'text'), ('Paper', 'inherited')) for how in ('new', 'keyed', 'row')]


def cached(ctx):
    ctx.rule(R_KEY, 'every cache access caused by a key uses a name that contains this key in full')
    ctx.rule(R_OWN, 'after a key was assigned the attribute is what the cache holds under the name of this key, or a value computed for this instance and stored under it')
    ctx.rule(R_NONE, 'assigning the initial key, or creating an instance without key, accesses no cache and shows a value computed for this instance')
    ctx.rule(R_SAVE, 'after a save the attribute belongs to the key that was written to the row')
    ctx.parallel(lambda c: case(ctx, *c), CASES)


def case(ctx, how, model, name, more=None):
    def run(it, x):
        m = it.import_module('shapes.store')
        args = [it.getattr(m, model), name]
        if how in ('assign', 'pair'):
            sym = it.getattr(it.import_module('__vp__'), 'sym')
            args.append(it.new_list([it.call(sym, [v], {}) if isinstance(v, str) else v for v in more]))
        elif how == 'save':
            args.append(more)
        return it.call(it.getattr(m, how), args, {})
    x = ctx.extraction('store', 'sqlite', run=run)
    label = '%s/%s%s' % (how, model, '' if more is None else '/' + '-'.join(str(v) for v in more) if not isinstance(more, str) else '/' + more)
    r = ctx.ok_result(x, 'using a cached function field (%s)' % label, label)
    if r is None:
        return
    here = functions(x.it, '__set__', 'pre_save')
    for p in paths(r, args=True):
        if how == 'save':
            saved(ctx, label, name, p, here)
            continue
        parts = segments(p.events, 'assign')
        if not parts:
            raise NoVerdict('no assignment seen in %s' % label)
        for i, (at, evs) in enumerate(parts):
            key = at.args[0]
            if how == 'load':
                key = found_key(p, name)
            shown = p.value[i] if how == 'pair' else p.value[0] if i == len(parts) - 1 else None
            tag = None if how in ('load', 'create') else 'b' if how == 'pair' and i else 'a'
            judge(ctx, label, name, key, evs, p.facts, shown, how == 'pair' or i == len(parts) - 1, tag, here)


def found_key(p, name):
    for f in p.facts:
        if isinstance(f, Term) and f.op == 'is' and isinstance(f.args[0], Term) and f.args[0].op == 'attr' and f.args[0].args[1] == name:
            return f.args[0]
    raise NoVerdict('the key of the loaded row was not found')


def segments(events, name):
    out = []
    for e in events:
        if isinstance(e, Ev) and e.name == name:
            out.append((e, []))
        elif out:
            if not isinstance(e, Ev):
                raise NoVerdict('a loop over cached values')
            out[-1][1].append(e)
    return out


def zero(key, facts):
    if not isinstance(key, Term):
        return not key
    return any(isinstance(v, bool) and means_zero(c, v, key) for c, v in facts.items())


def means_zero(c, v, key):
    """The condition having this truth value implies that there is no key."""
    if not isinstance(c, Term):
        return False
    if c.op == 'not':
        return means_zero(c.args[0], not v, key)
    if c.op == 'or' and v or c.op == 'and' and not v:
        return all(means_zero(a, v, key) for a in c.args)
    if c.op == 'or' and not v or c.op == 'and' and v:
        return any(means_zero(a, v, key) for a in c.args)
    if c.op == 'truth':
        return c.args[0] == key and not v
    return c.op in ('eq', 'is') and v and key in c.args and (0 in c.args or None in c.args)


def contains(name, key):
    """The text contains the whole key."""
    parts = name.parts if isinstance(name, SStr) else name if isinstance(name, tuple) else (name,)
    return any(x == key or (isinstance(x, Term) and x.op in ('str', 'fmt') and x.args and x.args[-1] == key) for x in parts)


def accesses(evs):
    return [e for e in evs if isinstance(e, Ev) and e.name.startswith('cache.')]


def judge(ctx, label, name, key, evs, facts, shown, final, tag, here):
    """One assignment of a key."""
    if zero(key, facts):
        ctx.ob(R_NONE)
        for e in accesses(evs):
            ctx.finding('%s:%s' % (R_NONE, label), 'an instance without own key accesses the cache (%s)' % label, where(e))
        if final and shown not in [e.result for e in evs if e.name == 'computed' and e.args == (name, tag)]:
            ctx.finding('%s:%s:value' % (R_NONE, label), 'an instance without own key shows a value that was not computed for it (%s)' % label, here)
        return
    for e in accesses(evs):
        ctx.ob(R_KEY)
        if not contains(e.args[1], key):
            ctx.finding('%s:%s' % (R_KEY, label), 'the cache is accessed under a name that does not contain the key of the row (%s)' % label, where(e))
            return
    if final:
        owned(ctx, R_OWN, label, name, key, evs, facts, shown, tag, here)


def absent(key, evs, facts):
    """The cache is known to hold nothing (or None) under the key, so that adding stores a value."""
    def holds(c):
        # under the assumption that there is something else under the key
        if not isinstance(c, Term):
            return c if isinstance(c, bool) else None
        if c.op == 'not':
            v = holds(c.args[0])
            return None if v is None else not v
        if c.op in ('and', 'or'):
            vs = [holds(a) for a in c.args]
            short = c.op == 'or'
            return short if short in vs else None if None in vs else not short
        if c.op == 'atom' and c.args[0] == 'cache.has' and contains(c.args[2], key):
            return True
        if c.op == 'is' and None in c.args and any(isinstance(a, Term) and a.op == 'stored' and contains(a.args[1], key) for a in c.args):
            return False
        return None
    return any(isinstance(v, bool) and holds(c) is (not v) for c, v in facts.items())


def owned(ctx, rule, label, name, key, evs, facts, shown, tag, here):
    ctx.ob(rule)
    if isinstance(shown, Term) and shown.op == 'stored':
        if not contains(shown.args[1], key):
            ctx.finding('%s:%s:stored' % (rule, label), 'the value stored under an other key is shown (%s)' % label, here)
        else:
            ctx.sample('%s: stored under the key' % label)
        return
    made = [i for i, e in enumerate(evs) if isinstance(e, Ev) and e.name == 'computed' and e.args == (name, tag) and e.result == shown]
    if not made:
        ctx.finding('%s:%s:value' % (rule, label), 'the shown value is neither stored under the key nor computed for the instance (%s)' % label, here)
        return
    kept = [e for e in evs[made[0]:] if isinstance(e, Ev) and contains(e.args[1], key) if e.name == 'cache.set' or e.name == 'cache.add' and absent(key, evs, facts)]
    if not kept or kept[-1].args[2] != shown:
        ctx.finding('%s:%s:kept' % (rule, label), 'a freshly computed value is not stored under the key of the row (%s)' % label, here)
    else:
        ctx.sample('%s: computed and stored' % label)


def saved(ctx, label, name, p, here):
    start = [i for i, e in enumerate(p.events) if isinstance(e, Ev) and e.name == 'begin'][0]
    evs = p.events[start:]
    writes = [e for e in evs if isinstance(e, Ev) and e.name == 'db' and e.args[0] in ('row_insert', 'row_update')]
    if not writes:
        raise NoVerdict('a save without write')
    key = dict(writes[-1].args[4]).get(name)
    if key is None:
        raise NoVerdict('the key column is not written')
    ctx.ob(R_SAVE)
    if zero(key, p.facts):
        if p.value[0] not in [e.result for e in evs if isinstance(e, Ev) and e.name == 'computed' and e.args == (name, 'a')]:
            ctx.finding('%s:%s:zero' % (R_SAVE, label), 'an instance saved without key shows a value that was not computed for it', here)
        return
    owned(ctx, R_SAVE, label, name, key, evs, p.facts, p.value[0], 'a', here)
