"""Management commands: they do what the functions do, with the options of the user."""
import re

from ..core import NoVerdict
from ..interp import Ev, IfEv, StarEv, trace_list
from ..traces import where, functions, flat_all
from ..values import Term, SStr, Ite

R_INIT = 'init-drops-and-installs'
R_DROP = 'drop-removes'
R_FLUSH = 'flush-flushes'
R_REBUILD = 'rebuild-as-selected'
R_PRINT = 'sql-printed'
R_NOEXEC = 'sql-not-executed'

QUIET = ('import', 'signal.connect', 'atomic.enter', 'atomic.exit', 'tx.commit', 'tx.autocommit', 'tx.rollback', 'log.error', 'log.warning', 'log.debug')
BACKENDS = ('sqlite', 'mysql', 'postgresql')
SELECT = (None, 'one', 'two', 'Item', 'two.Item', 'one.Item', 'nowhere')

# identities are the numbers after '#' and '@' and the larger ones outside of literals
NUMBER = re.compile(r"'(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\"|[#@](\d+)|\b(\d{3,})\b")


def commands(ctx):
    ctx.rule(R_INIT, 'the statements executed by the init command are those of dropping and installing with the same alias, in this order')
    ctx.rule(R_DROP, 'the statements executed by the drop command are those of dropping with the same alias')
    ctx.rule(R_FLUSH, 'the effects of the flush command are those of a flush')
    ctx.rule(R_REBUILD, 'the effects of the rebuild command are those of a rebuild with the same selector, telling about its progress exactly with a verbosity above one')
    ctx.rule(R_PRINT, 'the text printed by the SQL command consists of the trigger statements of an installation, with parameters filled in, each once')
    ctx.rule(R_NOEXEC, 'the SQL command executes no statement')
    cases = [('tr', b, a, c) for b in BACKENDS for a in (None, 'default', 'other') for c in ('init', 'drop')]
    cases += [('flush', b, v) for b in ('sqlite', 'postgresql') for v in (None, 0, 2)]
    cases += [('rebuild', 'sqlite', s, v) for s in SELECT for v in (None, 0, 1, 2, 3)]
    cases += [('sql', b, s) for b in BACKENDS for s in ('fwd', 'bwd', 'm2m', 'own', 'ck', 'agg')]
    cases += [('sql', b, 'agg', (('filter', f),)) for b in BACKENDS[1:] for f in ((('kind', 3),), (('kind__gte', 2), ('n', 5)))]
    ctx.parallel(lambda c: {'tr': trigger_case, 'flush': flush_case, 'rebuild': rebuild_case, 'sql': sql_case}[c[0]](ctx, *c[1:]), cases)


def traced(ctx, shape, backend, what, key, call, cfg=()):
    """Events of a call, and the analysis."""
    def run(it, x):
        it.event('begin')
        return call(it)
    x = ctx.extraction(shape, backend, config=dict(cfg), run=run)
    r = ctx.ok_result(x, what, key)
    if r is None:
        return x, None
    evs = trace_list(r.state.trace)
    for i, e in enumerate(evs):
        if isinstance(e, Ev) and e.name == 'begin':
            return x, evs[i + 1:]
    raise NoVerdict('lost the start of %s' % what)


def direct(module, fn, kw):
    def call(it):
        return it.call(it.getattr(it.import_module(module), fn), [], dict(kw))
    return call


def command(name, given):
    def call(it):
        m = it.import_module('denorm.management.commands.' + name)
        c = it.call(it.getattr(m, 'Command'), [], {})
        return it.call(it.getattr(c, 'vp_call'), [it.new_dict(list(given.items()))], {})
    return call


def canonical(evs, skip=QUIET):
    """Printable form of a trace in which internal numbers do not matter."""
    names = {}

    def rename(m):
        n = m.group(1) or m.group(2)
        return m.group(0) if n is None else '#%d' % names.setdefault(n, len(names))

    def walk(es):
        out = []
        for e in es:
            if isinstance(e, Ev):
                if e.name not in skip:
                    out.append('%s%r' % (e.name, e.args))
            elif isinstance(e, IfEv):
                a, b = walk(e.a), walk(e.b)
                if a or b:
                    out.append('if %r {%s}{%s}' % (e.c, '; '.join(a), '; '.join(b)))
            elif isinstance(e, StarEv):
                body = walk(e.body or ())
                if body:
                    out.append('%r{%s}' % (e.info, '; '.join(body)))
        return out
    return [NUMBER.sub(rename, t) for t in walk(evs)]


def compare(ctx, rule, key, text, got, want, here):
    ctx.ob(rule, max(1, len(want)))
    a, b = canonical(got), canonical(want)
    if a == b:
        return True
    for i in range(max(len(a), len(b))):
        x, y = a[i] if i < len(a) else 'nothing', b[i] if i < len(b) else 'nothing'
        if x != y:
            ctx.finding('%s:%s' % (rule, key), '%s: effect %d is %s where %s is expected' % (text, i + 1, brief(x), brief(y)), here)
            return False


def brief(t):
    t = ' '.join(t.split())
    return t if len(t) < 90 else t[:87] + '...'


def check_options(evs):
    for e, loops in flat_all(evs, {}, ()):
        if e.name == 'cmd.unknown_option':
            raise NoVerdict('the command has no option %s' % e.args[0])


def only_sql(evs):
    return [e for e in flat_if(evs, ('execute',))]


def flat_if(evs, names):
    """The trace with only the named events."""
    out = []
    for e in evs:
        if isinstance(e, Ev):
            if e.name in names:
                out.append(e)
        elif isinstance(e, IfEv):
            n = IfEv(e.c, flat_if(e.a, names), flat_if(e.b, names))
            if n.a or n.b:
                out.append(n)
        elif isinstance(e, StarEv):
            n = StarEv(e.loop, e.info, e.site)
            n.body = flat_if(e.body or (), names)
            if n.body:
                out.append(n)
    return out


def trigger_case(ctx, backend, alias, cmd):
    name = 'denorm_' + cmd
    key = '%s/%s/%s' % (name, backend, alias or 'default')
    given = {} if alias is None else {'database': alias}
    x, got = traced(ctx, 'fwd', backend, 'the %s command' % cmd, key, command(name, given))
    if got is None:
        return
    check_options(got)
    here = functions(x.it, 'handle')
    kw = {'using': alias or 'default'}
    want = []
    for fn in ('drop_triggers',) + (('install_triggers',) if cmd == 'init' else ()):
        y, evs = traced(ctx, 'fwd', backend, fn, key + '/' + fn, direct('denorm.denorms', fn, kw))
        if evs is None:
            return
        want += evs
    want = only_sql(want)
    if not want:
        raise NoVerdict('no statement is executed by %s on %s' % (cmd, backend))
    rule = R_INIT if cmd == 'init' else R_DROP
    if compare(ctx, rule, key, 'the %s command (%s, database %s)' % (cmd, backend, alias or 'not given'), only_sql(got), want, here):
        ctx.sample('%s: %d statements' % (key, len(want)))


def flush_case(ctx, backend, verbosity):
    key = 'denorm_flush/%s/%s' % (backend, verbosity)
    x, got = traced(ctx, 'fwd', backend, 'the flush command', key, command('denorm_flush', {} if verbosity is None else {'verbosity': verbosity}))
    y, want = traced(ctx, 'fwd', backend, 'flush', key + '/flush', direct('denorm.denorms', 'flush', {}))
    if got is None or want is None:
        return
    check_options(got)
    quiet = QUIET + ('print', 'cmd.write')
    ctx.ob(R_FLUSH)
    if not canonical(want, quiet):
        raise NoVerdict('flush has no effects')
    drop = lambda evs: flat_if(evs, ('db', 'save', 'execute', 'compute', 'sleep'))
    compare(ctx, R_FLUSH, key, 'the flush command', drop(got), drop(want), functions(x.it, 'handle'))


def rebuild_case(ctx, backend, sel, verbosity):
    key = 'denorm_rebuild/%s/%s' % (sel, verbosity)
    given = {}
    if sel is not None:
        given['model_name'] = sel
    if verbosity is not None:
        given['verbosity'] = verbosity
    x, got = traced(ctx, 'rebuild', backend, 'the rebuild command', key, command('denorm_rebuild', given))
    y, want = traced(ctx, 'rebuild', backend, 'rebuildall', key + '/rebuildall', direct('denorm.denorms', 'rebuildall', {'model_name': sel, 'verbose': (verbosity or 0) > 1}))
    if got is None or want is None:
        return
    check_options(got)
    names = ('db', 'save', 'execute', 'compute', 'print', 'sleep')
    text = 'the rebuild command (%s, verbosity %s)' % (sel or 'everything', verbosity)
    compare(ctx, R_REBUILD, key, text, flat_if(got, names), flat_if(want, names), functions(x.it, 'handle'))


# ---- printed SQL ----------------------------------------------------------------------------------

def resolve(v, side):
    """The value with every undecided choice taken to the same side."""
    if isinstance(v, Ite):
        return resolve(v.a if side else v.b, side)
    if isinstance(v, SStr):
        out = []
        for p in v.parts:
            p = resolve(p, side)
            out += list(p.parts) if isinstance(p, SStr) else [p]
        return SStr(tuple(out))
    if isinstance(v, tuple):
        return tuple(resolve(x, side) for x in v)
    if isinstance(v, Term):
        return Term(v.op, *[resolve(a, side) if isinstance(a, (Ite, SStr, Term, tuple)) else a for a in v.args])
    return v


def tokens(v):
    """Characters and unknown parts, with runs of blanks as one."""
    out = []
    for p in (v.parts if isinstance(v, SStr) else (v,)):
        if isinstance(p, str):
            for ch in p:
                if ch.isspace():
                    if out and out[-1] != ' ':
                        out.append(' ')
                else:
                    out.append(ch)
        else:
            out.append(re.sub(r'#\d+', '#', repr(p)))
    while out and out[-1] == ' ':
        out.pop()
    return out


def filled(sql, params):
    """Statement as the database sees it: parameters in place of the %s."""
    if params is None:
        return sql
    params = list(params[1:]) if isinstance(params, tuple) and params and params[0] == 'list' else list(params)
    out = []
    for p in (sql.parts if isinstance(sql, SStr) else (sql,)):
        if not isinstance(p, str):
            out.append(p)
            continue
        for piece in re.split(r'(%s|%%)', str(p)):
            if piece == '%s':
                if not params:
                    raise NoVerdict('a statement has more placeholders than parameters')
                v = params.pop(0)
                out.append(str(v) if isinstance(v, (str, int)) else v if isinstance(v, SStr) else Term('str', v))
            elif piece == '%%':
                out.append('%')
            elif piece:
                out.append(piece)
    flat = []
    for p in out:
        flat += list(p.parts) if isinstance(p, SStr) else [p]
    return SStr(tuple(flat))


def printed(evs):
    parts = []
    for e in evs:
        if isinstance(e, (IfEv, StarEv)):
            if flat_if([e], ('print', 'cmd.write', 'stream.write')):
                raise NoVerdict('SQL is printed under a condition or in a loop over unknown data')
            continue
        if not isinstance(e, Ev):
            continue
        if e.name == 'print':
            for i, a in enumerate(e.args):
                parts += [a, ' ']
            parts.append('\n')
        elif e.name == 'cmd.write' and e.args[0] == 'stdout':
            parts += [e.args[1], '\n']
    return parts


def sql_case(ctx, backend, shape, cfg=()):
    key = 'denorm_sql/%s/%s%s' % (backend, shape, '/filter' if cfg else '')
    x, got = traced(ctx, shape, backend, 'the SQL command', key, command('denorm_sql', {}), cfg)
    y, want = traced(ctx, shape, backend, 'installing', key + '/install', direct('denorm.denorms', 'install_triggers', {}), cfg)
    if got is None or want is None:
        return
    here = functions(x.it, 'handle')
    ctx.ob(R_NOEXEC)
    ran = [e for e, loops in flat_all(got, {}, ()) if e.name == 'execute']
    if ran:
        ctx.finding('%s:%s' % (R_NOEXEC, key), 'the SQL command executes a statement', where(ran[0]) or here)
    for side in (False, True):
        text = []
        for p in printed(got):
            p = resolve(p, side)
            text += list(p.parts) if isinstance(p, SStr) else [p]
        text = tokens(SStr(tuple(text)))
        stmts = []
        for e in want:
            if isinstance(e, Ev) and e.name == 'execute':
                t = tokens(filled(resolve(e.args[1], side), resolve(e.args[2], side)))
                if 'CREATE TRIGGER' in ''.join(c if len(c) == 1 else '?' for c in t):
                    stmts.append((t, e))
        if cfg and not any(e.args[2] not in (None, (), ('list',)) for t, e in stmts):
            raise NoVerdict('filters no longer use parameters')
        if not stmts:
            raise NoVerdict('no trigger is created on %s for %s' % (backend, shape))
        ctx.ob(R_PRINT, len(stmts))
        i, left = 0, list(stmts)
        while i < len(text):
            if text[i] in (' ', ';'):
                i += 1
                continue
            for s in left:
                if text[i:i + len(s[0])] == s[0]:
                    left.remove(s)
                    i += len(s[0])
                    break
            else:
                ctx.finding('%s:%s:text' % (R_PRINT, key), 'the SQL command prints something that installing does not execute: %s' % ''.join(text[i:i + 60]), here)
                return
        for t, e in left[:1]:
            ctx.finding('%s:%s:missing' % (R_PRINT, key), 'the SQL command does not print the statement %s' % ''.join(t[:70]), where(e) or here)
    ctx.sample('%s: %d statements printed' % (key, len(stmts)))
