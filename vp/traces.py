"""Reading effect traces: alternatives of a trace under consistent choices of its conditions."""
from .interp import trace_list, Ev, IfEv, StarEv, KnowEv, add_fact, decide, Unsupported
from .values import Term, SStr, Ite, Ref, mk_ite, cat

LIMIT = 20000


def pick(v, facts):
    """The value with all decided choices made."""
    if isinstance(v, Ite):
        d = decide(facts, v.c)
        if d is True:
            return pick(v.a, facts)
        if d is False:
            return pick(v.b, facts)
        return mk_ite(v.c, pick(v.a, facts), pick(v.b, facts))
    if isinstance(v, tuple):
        return tuple(pick(x, facts) for x in v)
    if isinstance(v, SStr):
        return cat([pick(p, facts) for p in v.parts])
    if isinstance(v, Term) and any(isinstance(a, (Ite, SStr, Term, tuple)) for a in v.args):
        return Term(v.op, *[pick(a, facts) if isinstance(a, (Ite, SStr, Term, tuple)) else a for a in v.args])
    return v


def split(v, facts):
    """All (value, facts) the value may be."""
    v = pick(v, facts)
    c = first_cond(v)
    if c is None:
        return [(v, facts)]
    out = []
    for val in (True, False):
        f = dict(facts)
        add_fact(f, c, val)
        out += split(v, f)
    return out


def first_cond(v):
    if isinstance(v, Ite):
        return v.c
    if isinstance(v, tuple):
        for x in v:
            c = first_cond(x)
            if c is not None:
                return c
    if isinstance(v, SStr):
        return first_cond(tuple(v.parts))
    if isinstance(v, Term):
        return first_cond(tuple(a for a in v.args if isinstance(a, (Ite, SStr, Term, tuple))))
    return None


def leaves(v):
    if isinstance(v, Ite):
        return leaves(v.a) + leaves(v.b)
    return [v]


def linear(evs, facts):
    """Yields (events, facts) for each consistent resolution of the conditions."""
    done = [((), dict(facts))]
    for e in evs:
        nxt = []
        for pre, f in done:
            if isinstance(e, IfEv):
                d = decide(f, e.c)
                for val, branch in ((True, e.a), (False, e.b)):
                    if d is not None and d is not val:
                        continue
                    g = f
                    if d is None:
                        g = dict(f)
                        add_fact(g, e.c, val)
                    for sub, h in linear(branch, g):
                        nxt.append((pre + tuple(sub), h))
            elif isinstance(e, KnowEv):
                g = dict(f)
                for c, val in e.facts:
                    d = decide(g, c)
                    if d is None:
                        add_fact(g, c, val)
                    elif d is not val:
                        break
                else:
                    nxt.append((pre, g))
            else:
                nxt.append((pre + (e,), f))
            if len(nxt) > LIMIT:
                raise Unsupported('too many alternatives in a trace')
        done = nxt
    return done


class Path(object):
    """One alternative of an outcome."""
    def __init__(self, result, events, facts, value):
        self.result, self.events, self.facts, self.value = result, events, facts, value
        self.kind = result.kind

    def named(self, *names):
        return [e for e in self.events if isinstance(e, Ev) and e.name in names]

    def flat(self):
        """Events with the loop bodies they are in: (event, loops)."""
        return flat(self.events, self.facts)

    def has(self, c):
        return decide(self.facts, c)

    def raised(self):
        r = self.result.use()
        e = r.it.get(r.value)
        return r.it.get(e.cls).name


def flat(events, facts, loops=()):
    for e in events:
        if isinstance(e, Ev):
            yield e, loops
        elif isinstance(e, StarEv):
            for x in flat_all(e.body or (), facts, loops + (e,)):
                yield x


def flat_all(events, facts, loops):
    for e in events:
        if isinstance(e, IfEv):
            d = decide(facts, e.c)
            if d is not False:
                for x in flat_all(e.a, facts, loops):
                    yield x
            if d is not True:
                for x in flat_all(e.b, facts, loops):
                    yield x
        elif isinstance(e, StarEv):
            for x in flat_all(e.body or (), facts, loops + (e,)):
                yield x
        else:
            yield e, loops


def paths(result, value=None, args=False):
    """All alternatives of one outcome, with its (frozen) value or `value` resolved.

    With `args` the arguments of its top-level events are resolved as well.
    """
    result.use()
    v = value
    if v is None and result.kind == 'return':
        v = result.it.freeze(result.value)
    out = []
    for evs, facts in linear(trace_list(result.state.trace), result.state.facts):
        if args:
            n = [i for i, e in enumerate(evs) if isinstance(e, Ev)]
            for (x, vs), f in split((v, tuple(evs[i].args for i in n)), facts):
                es = list(evs)
                for i, a in zip(n, vs):
                    e = evs[i]
                    es[i] = Ev(e.name, a, e.kw, e.stack, e.result, e.uid)
                out.append(Path(result, es, f, x))
            continue
        for x, f in split(v, facts):
            out.append(Path(result, evs, f, x))
    return out


def where(ev):
    """Call sites of an event inside the analysed project, innermost first."""
    return [s for s in reversed(ev.stack) if str(s[0]).startswith('denorm')] or list(ev.stack)[-2:]


def functions(it, *names):
    """Analysed functions of the project with one of the given names, as sites."""
    out = []
    for f, q in sorted(it.analysed_funcs):
        if str(f).startswith('denorm') and q.split('.')[-1] in names:
            out.append('%s (%s)' % (f, q))
    return out
