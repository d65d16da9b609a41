"""Flushing from the outside: middleware, request signal, daemon, management commands."""
from ..core import NoVerdict, proj_sites
from ..interp import Ev, IfEv, StarEv, Unsupported, decide, trace_list
from ..traces import leaves, linear, paths, pick, where, functions, flat_all
from ..values import Term, Ite, Ref
from ..sqlparse import show_text
from .flushing import MARKER, UNRESTRICTED, is_read, found_nothing, saves

DBERRORS = ('DatabaseError', 'OperationalError', 'IntegrityError', 'ProgrammingError', 'InternalError', 'DataError', 'NotSupportedError')
LOGGED = ('log.error', 'log.warning')


def complete(events, facts):
    """A complete flush among the events: the last look at the marker table found it empty."""
    ok = None
    for e in events:
        if is_read(e):
            if not [op for op in e.args[3] if op[0] not in UNRESTRICTED] and found_nothing(e, facts):
                ok = e
        elif saves(e):
            ok = None
    return ok is not None


def touches(events):
    """Any access to the marker table."""
    return [e for e, loops in flat_all(events, {}, ()) if e.name == 'db' and e.args[1] == MARKER]


# ---- middleware -----------------------------------------------------------------------------------

R_ANSWER = 'answers-with-the-response'
R_SERVE = 'flush-before-answer'
R_LOG = 'database-error-logged'
R_SIGNAL = 'flush-on-request-end'


def middleware(ctx):
    ctx.rule(R_ANSWER, 'every outcome of a request through the middleware is the object the view returned, also when a database access of the flush fails')
    ctx.rule(R_SERVE, 'after the view, and before returning, the flush runs to its end or fails with a database error')
    ctx.rule(R_LOG, 'where the flush failed with a database error, a message was logged')
    ctx.rule(R_SIGNAL, 'with the setting on, the end of a request runs a flush through a receiver that stays alive; otherwise nothing touches the markers')
    cases = [('serve', b, f, u) for b in ('sqlite', 'postgresql') for f, u in
             [(None, None)] + [(e, None) for e in DBERRORS] + [(None, 'django.db.utils:' + e) for e in DBERRORS]]
    cases += [('signal', b, s, how) for b in ('sqlite',) for s in ('absent', True, False, None, 1, 0) for how in ('finish', 'fail')]
    ctx.parallel(lambda c: served(ctx, *c[1:]) if c[0] == 'serve' else signalled(ctx, *c[1:]), cases)


def served(ctx, backend, db_fault, user_fault):
    def run(it, x):
        m = it.import_module('denorm.middleware')
        d = it.import_module('shapes.drive')
        return it.call(it.getattr(d, 'serve'), [it.getattr(m, 'DenormMiddleware')], {})
    x = ctx.extraction('fwd', backend, config={'db_faults': db_fault, 'user_faults': user_fault}, run=run)
    name = 'middleware/%s' % backend
    here = functions(x.it, 'process_response', '__call__')
    for r in x.results:
        for p in paths(r):
            cls, sites = outcome(r, p)
            if cls:
                ctx.finding('%s:%s:%s' % (R_ANSWER, name, cls), 'a request ends with %s instead of a response%s' % (
                    cls, ' when the flush fails with %s' % (db_fault or user_fault) if db_fault or user_fault else ''), sites or here)
                continue
            views = [i for i, e in enumerate(p.events) if isinstance(e, Ev) and e.name == 'view']
            ctx.ob(R_ANSWER)
            if len(views) != 1:
                ctx.finding('%s:%s:views' % (R_ANSWER, name), 'the view is called %d times for a request' % len(views), here)
                continue
            if p.value != p.events[views[0]].result:
                ctx.finding('%s:%s:value' % (R_ANSWER, name), 'the middleware returns something else than the response of the view', here)
            after = p.events[views[0] + 1:]
            failed = [e for e, loops in flat_all(after, p.facts, ()) if e.name in ('db.fail', 'user.fail')]
            ctx.ob(R_SERVE)
            if failed and not complete(after, p.facts):
                ctx.ob(R_LOG)
                if not [e for e in after if isinstance(e, Ev) and e.name in LOGGED]:
                    ctx.finding('%s:%s' % (R_LOG, name), 'a database error of the flush is dropped without being logged', where(failed[0]) or here)
            elif not failed and not complete(after, p.facts):
                ctx.finding('%s:%s' % (R_SERVE, name), 'a request is answered without a flush after the view', here)
            else:
                ctx.sample('%s: flush between view and answer' % name)


def signalled(ctx, backend, value, how):
    settings = {} if value == 'absent' else {'DENORM_FLUSH_AFTER_REQUEST': value}

    def run(it, x):
        return it.call(it.getattr(it.import_module('shapes.drive'), how), [], {})
    x = ctx.extraction('fwd', backend, config={'settings': settings}, run=run)
    name = 'signal/%s/%s' % (value, how)
    here = ['denorm/__init__.py']
    r = ctx.ok_result(x, 'a request signal', name)
    if r is None:
        return
    for p in paths(r):
        ctx.ob(R_SIGNAL)
        at = [i for i, e in enumerate(p.events) if isinstance(e, Ev) and e.name == 'request.finished']
        before, after = (p.events, []) if not at else (p.events[:at[0]], p.events[at[0] + 1:])
        if value != 'absent' and value and how == 'finish':
            if not complete(after, p.facts):
                ctx.finding('%s:%s' % (R_SIGNAL, name), 'no flush runs at the end of a request although the setting is on', here)
            for e in p.named('signal.connect'):
                if e.args[0] == 'request_finished' and e.args[3] is not False and not kept(x.it, e.args[1]):
                    ctx.finding('%s:%s:weak' % (R_SIGNAL, name), 'the receiver of the request signal is only weakly referenced and vanishes', where(e))
            if touches(before):
                ctx.finding('%s:%s:early' % (R_SIGNAL, name), 'markers are accessed before the request finishes', where(touches(before)[0]))
        elif touches(before) or touches(after):
            e = (touches(before) + touches(after))[0]
            ctx.finding('%s:%s' % (R_SIGNAL, name), 'markers are accessed by a request signal (%s) although the setting is %s' % (how, value), where(e))


def kept(it, ref):
    """A module or class attribute refers to the function."""
    if not isinstance(ref, Ref):
        return True
    r = it.get(ref)
    if not hasattr(r, 'node'):
        return True
    for rec in it.st.heap.values():
        if type(rec).__name__ in ('OModule', 'OClass') and any(v == ref for v in rec.attrs.values()):
            return True
        if type(rec).__name__ == 'OFrame' and rec.kind == 'module' and any(v == ref for v in rec.vars.values()):
            return True
    return False


# ---- daemon command -------------------------------------------------------------------------------

R_ONCE = 'one-daemon-per-pidfile'
R_RUNS = 'starts-otherwise'
R_CYCLE = 'cycle-flushes-and-commits'
R_RUNONCE = 'run-once-is-one-cycle'
PIDFILE = '/var/run/d.pid'


def daemon(ctx):
    ctx.rule(R_ONCE, 'when signal 0 to the pid in the given pid file succeeds or is refused, the command returns without forking or touching markers')
    ctx.rule(R_RUNS, 'with a missing pid file, a dead pid or no number in it, the command flushes (in a forked process unless in the foreground, whose pid goes into the given pid file)')
    ctx.rule(R_CYCLE, 'in every iteration, and on every exit by an interrupt, a commit follows the last database access before the next flush or the end')
    ctx.rule(R_RUNONCE, 'in run-once mode the command returns after exactly one flush with autocommit on')
    cases = []
    for state in ('alive', 'foreign', 'dead', 'missing', 'empty', 'garbage'):
        for fg in (True, False):
            for once in (True, False):
                for intr in (False, True):
                    for interval in (7, 0, None) if state == 'missing' else (7,):
                        cases.append((state, fg, once, intr, interval))
    ctx.parallel(lambda c: daemon_case(ctx, *c), cases)


def daemon_case(ctx, state, foreground, once, interrupts, interval, backend='sqlite'):
    given = [('pidfile', PIDFILE)]
    if interval is not None:
        given.append(('interval', interval))
    if foreground:
        given.append(('foreground', True))
    if once:
        given.append(('run_once', True))

    def run(it, x):
        m = it.import_module('denorm.management.commands.denorm_daemon')
        c = it.call(it.getattr(m, 'Command'), [], {})
        it.event('begin')
        return it.call(it.getattr(c, 'vp_call'), [it.new_dict(given)], {})
    x = ctx.extraction('fwd', backend, config={'pid_state': state, 'pid_path': PIDFILE, 'interrupts': interrupts}, run=run)
    name = '%s%s%s%s' % (state, '/foreground' if foreground else '', '/once' if once else '', '' if interval == 7 else '/interval %s' % interval)
    here = functions(x.it, 'handle', 'pid_exists')
    running = state in ('alive', 'foreign')
    started = forked = False
    for r in x.results:
        for p in paths(r):
            cls, sites = outcome(r, p)
            if cls not in (None, '__vp_exit__', 'SystemExit', 'KeyboardInterrupt'):
                ctx.finding('%s:%s:%s' % (R_ONCE if running else R_RUNS, name, cls), 'the daemon command ends with %s (pid file: %s)' % (cls, state), sites or here)
                continue
            unknown = p.named('cmd.unknown_option')
            if unknown:
                raise NoVerdict('the command has no option %s' % unknown[0].args[0])
            evs = list(p.events)
            for i, e in enumerate(evs):
                if isinstance(e, Ev) and e.name == 'begin':
                    evs = evs[i + 1:]
                    break
            named = [e for e, loops in flat_all(evs, p.facts, ())]
            kills = [e for e in named if e.name in ('os.kill', 'os.kill!')]
            for e in kills:
                if e.args[1] != 0 or e.args[0] != 4711:
                    ctx.finding('%s:%s:kill' % (R_ONCE, name), 'signal %r is sent to process %r while looking whether the daemon runs' % (e.args[1], e.args[0]), where(e))
            if running:
                ctx.ob(R_ONCE)
                bad = [e for e in named if e.name in ('os.fork', 'save') or (e.name == 'db' and e.args[1] == MARKER)]
                if bad:
                    ctx.finding('%s:%s' % (R_ONCE, name), 'the daemon starts although its pid file names an existing process (%s)' % (
                        'owned by another user' if state == 'foreign' else 'own'), where(bad[0]) or here)
                elif cls is not None:
                    ctx.finding('%s:%s:ends' % (R_ONCE, name), 'the command does not return normally when the daemon runs already', here)
                restored(ctx, named, name, here)
                continue
            forks = [e for e in named if e.name == 'os.fork']
            if cls == '__vp_exit__':
                if touches(evs):
                    ctx.finding('%s:%s:parent' % (R_RUNS, name), 'a process that is going to exit flushes', where(touches(evs)[0]))
                forked = forked or any(e.name == 'file.write' and e.args[0] == PIDFILE for e in named)
                continue
            started = True
            ctx.ob(R_RUNS)
            if foreground and forks:
                ctx.finding('%s:%s:fork' % (R_RUNS, name), 'the command forks although it is to stay in the foreground', where(forks[0]))
            if not foreground and not forks:
                ctx.finding('%s:%s:nofork' % (R_RUNS, name), 'the command stays in the foreground', here)
            cycles(ctx, p, evs, name, here, cls, once)
    if running:
        return
    ctx.ob(R_RUNS)
    if not started:
        # without run-once and interrupts nothing but the endless loop is left
        if once or interrupts:
            ctx.finding('%s:%s' % (R_RUNS, name), 'the daemon does not start (pid file: %s)' % state, here)
    if not foreground and not forked:
        ctx.finding('%s:%s:pidfile' % (R_RUNS, name), 'no pid is written to the given pid file', here)


def restored(ctx, named, name, here):
    ctx.ob(R_RUNONCE)
    auto = [e for e in named if e.name == 'tx.autocommit']
    if auto and auto[-1].args[1] is not True:
        ctx.finding('%s:%s:autocommit' % (R_RUNONCE, name), 'autocommit stays off after the command has returned', where(auto[-1]) or here)


class Dirty(object):
    """Follows uncommitted work."""
    def __init__(self):
        self.auto, self.work, self.depth = True, None, 0

    def step(self, e):
        """The access left uncommitted when a new flush starts, if any."""
        out = None
        if e.name == 'tx.autocommit':
            self.auto = e.args[1] is True
        elif e.name == 'tx.commit':
            self.work = None
        elif e.name == 'tx.rollback':
            out = self.work
            self.work = None
        elif e.name == 'atomic.enter':
            self.depth += 1
        elif e.name == 'atomic.exit':
            self.depth -= 1
            if self.depth == 0 and self.auto and e.args[1] is True:
                self.work = None
        elif e.name in ('save', 'db') and (not self.auto or self.depth):
            self.work = e
        return out


def flushes(events):
    return [e for e, loops in flat_all(events, {}, ()) if is_read(e)]


def is_cycle(s):
    """Whether a repetition is that of the daemon: it sleeps, or repeats what repeatedly reads the markers."""
    if any(e.name == 'sleep' for e, l in flat_all(s.body or (), {}, ())):
        return True
    return any(isinstance(x, StarEv) and any(is_read(e) for e, l in flat_all(x.body or (), {}, ())) for alt, f in linear(s.body or (), {}) for x in alt)


def cycles(ctx, p, evs, name, here, cls, once):
    d = Dirty()
    stars = [e for e in evs if isinstance(e, StarEv)]
    loops = [s for s in stars if is_cycle(s)]
    for e in evs:
        if isinstance(e, StarEv):
            if e in loops and e.body:
                for alt, f in linear(e.body, {}):
                    body = [x for x, l in flat_all(alt, f, ())]
                    ctx.ob(R_CYCLE)
                    if not [x for x in body if is_read(x)]:
                        ctx.finding('%s:%s:noflush' % (R_CYCLE, name), 'a cycle of the daemon does not flush', here)
                    twice = Dirty()
                    twice.auto, twice.work = d.auto, None
                    fresh = True
                    for i, x in enumerate(body + body):
                        if i == len(body):
                            fresh = True
                        if fresh and is_read(x):
                            fresh = False
                            if twice.work is not None:
                                ctx.finding('%s:%s:next' % (R_CYCLE, name), 'a cycle starts before the previous one is committed', where(twice.work))
                        lost = twice.step(x)
                        if lost is not None:
                            ctx.finding('%s:%s:rollback' % (R_CYCLE, name), 'the work of a cycle is rolled back', where(x))
            else:
                for x, l in flat_all(e.body or (), {}, ()):
                    d.step(x)
        elif isinstance(e, Ev):
            lost = d.step(e)
            if lost is not None:
                ctx.finding('%s:%s:rollback' % (R_CYCLE, name), 'the work of a cycle is rolled back', where(e))
    ctx.ob(R_CYCLE)
    if d.work is not None:
        ctx.finding('%s:%s:end' % (R_CYCLE, name), 'the daemon ends (%s) without committing its last flush' % (cls or 'normally'), where(d.work))
    if cls is None:
        ctx.ob(R_RUNONCE)
        if not once:
            ctx.finding('%s:%s:stops' % (R_CYCLE, name), 'the daemon stops by itself', here)
        elif loops:
            ctx.finding('%s:%s:more' % (R_RUNONCE, name), 'more than one cycle runs in run-once mode', here)
        elif not complete(evs, p.facts):
            ctx.finding('%s:%s:none' % (R_RUNONCE, name), 'no complete flush runs in run-once mode', here)
        elif len([e for e in evs if is_read(e) and found_nothing(e, p.facts)]) > 1 and sleeps(evs) > 1:
            ctx.finding('%s:%s:two' % (R_RUNONCE, name), 'more than one cycle runs in run-once mode', here)
        restored(ctx, [e for e in evs if isinstance(e, Ev)], name, here)


def sleeps(evs):
    return len([e for e in evs if isinstance(e, Ev) and e.name == 'sleep'])


# ---- daemonizing ----------------------------------------------------------------------------------

R_EXIT = 'parents-exit'
R_DETACH = 'grandchild-detached'
R_PID = 'pid-recorded'
R_ERR = 'os-errors-reported'
R_STREAMS = 'streams-redirected-on-demand'


def daemonize(ctx):
    ctx.rule(R_EXIT, 'where a fork returns a nonzero pid the process ends through an immediate exit, the first one without doing anything else')
    ctx.rule(R_DETACH, 'the function returns only where both forks returned zero, with a new session made between them and the working directory changed to the root')
    ctx.rule(R_PID, 'the intermediate process prints the second pid and writes it to the given pid file, and to no file otherwise')
    ctx.rule(R_ERR, 'every failing operating system call except closing descriptors ends in the daemon exception')
    ctx.rule(R_STREAMS, 'descriptors are closed or redirected only when not asked to keep them; then standard output and error go to the null device')
    ctx.parallel(lambda c: daemonize_case(ctx, *c), [(n, f, o) for n in (None, True, False) for f in (None, PIDFILE) for o in (False, True)])


def outcome(r, p):
    """Class name and places of the exception that ends the path, or None."""
    if r.kind != 'raise':
        return None, []
    r.use()
    found = {}
    for v in leaves(pick(r.value, p.facts)):
        exc = r.it.get(v)
        found[r.it.get(exc.cls).name] = proj_sites(exc.attrs.get('__site__') or exc.site or ())
    if len(found) != 1:
        raise NoVerdict('one path ends in different exceptions: %r' % sorted(found))
    return list(found.items())[0]


def is_zero(facts, pid):
    d = decide(facts, Term('eq', pid, 0))
    if d is None:
        d = decide(facts, Term('eq', 0, pid))
    if d is None:
        t = decide(facts, Term('truth', pid))
        d = None if t is None else not t
    if d is None:
        # fork never returns a negative number
        t = decide(facts, Term('lt', 0, pid))
        d = None if t is None else not t
    return d


def daemonize_case(ctx, noclose, pidfile, faults):
    kw = {}
    if noclose is not None:
        kw['noClose'] = noclose
    if pidfile:
        kw['pidfile'] = pidfile

    def run(it, x):
        m = it.import_module('denorm.daemon')
        it.event('begin')
        return it.call(it.getattr(m, 'daemonize'), [], kw)
    x = ctx.extraction('fwd', 'sqlite', config={'os_faults': faults}, run=run)
    name = 'daemonize%s%s' % ('' if noclose is None else '/noClose=%s' % noclose, '/pidfile' if pidfile else '')
    here = functions(x.it, 'daemonize')
    seen = set()
    reported = set()
    for r in x.results:
        for p in paths(r):
            cls, sites = outcome(r, p)
            sites = sites or here
            evs = list(p.events)
            for i, e in enumerate(evs):
                if isinstance(e, Ev) and e.name == 'begin':
                    evs = evs[i + 1:]
                    break
            named = [e for e, loops in flat_all(evs, p.facts, ())]
            forks = [e for e in named if e.name == 'os.fork']
            failed = [e for e in named if e.name.startswith('os.') and e.name.endswith('!') and e.name not in ('os.close!', 'os.kill!')]
            at = dict((id(e), i) for i, e in enumerate(named))
            if cls == 'DaemonException':
                ctx.ob(R_ERR)
                if not failed:
                    ctx.finding('%s:%s:spurious' % (R_ERR, name), 'a daemon error is raised although no system call failed', sites)
                reported |= set(e.name for e in failed)
                continue
            if failed:
                ctx.ob(R_ERR)
                ctx.finding('%s:%s:%s' % (R_ERR, name, failed[0].name), 'a failing %s is not reported as a daemon error but ends in %s' % (
                    failed[0].name[3:-1], cls or 'a normal return'), where(failed[0]) or sites)
                continue
            if cls not in (None, '__vp_exit__'):
                ctx.finding('%s:%s:%s' % (R_ERR if cls == 'OSError' else R_EXIT, name, cls), 'daemonizing ends with %s' % cls, sites)
                continue
            zero = [is_zero(p.facts, e.args[0]) for e in forks]
            if cls == '__vp_exit__':
                ctx.ob(R_EXIT)
                seen.add(len(forks))
                if not forks or zero[-1] is not False or not all(z is True for z in zero[:-1]):
                    ctx.finding('%s:%s:who' % (R_EXIT, name), 'a process exits that should continue', sites)
                    continue
                if len(forks) == 1:
                    rest = [e for e in named[at[id(forks[0])] + 1:] if e.name not in ('os._exit', 'stream.flush', 'log.warning')]
                    if rest:
                        ctx.finding('%s:%s:busy' % (R_EXIT, name), 'the calling process does more than exit after the fork (%s)' % rest[0].name, where(rest[0]) or sites)
                elif len(forks) == 2:
                    ctx.ob(R_PID)
                    pid = forks[1].args[0]
                    writes = [e for e in named if e.name == 'file.write']
                    prints = [e for e in named if e.name in ('print', 'stream.write')]
                    text = (pid, Term('str', pid))
                    if pidfile:
                        if [(w.args[0], w.args[1]) for w in writes] != [(pidfile, Term('str', pid))] and not same_pid(writes, pidfile, pid):
                            ctx.finding('%s:%s' % (R_PID, name), 'the pid of the daemon is not what is written to the pid file', where(writes[0]) if writes else sites)
                        opens = [e for e in named if e.name == 'file.open' and e.args[0] == pidfile]
                        if not opens or 'w' not in str(opens[-1].args[1]):
                            ctx.finding('%s:%s:mode' % (R_PID, name), 'the pid file is not replaced', where(opens[-1]) if opens else sites)
                        if not any(mentions(e.args, pid) for e in prints):
                            ctx.finding('%s:%s:print' % (R_PID, name), 'the pid of the daemon is not printed', sites)
                    elif writes:
                        ctx.finding('%s:%s:other' % (R_PID, name), 'a file is written although no pid file is given', where(writes[0]))
                continue
            # the daemon itself
            ctx.ob(R_DETACH)
            seen.add('daemon')
            if len(forks) != 2 or zero != [True, True]:
                ctx.finding('%s:%s:forks' % (R_DETACH, name), 'a process other than the grandchild continues', where(forks[-1]) if forks else here)
                continue
            sid = [at[id(e)] for e in named if e.name == 'os.setsid']
            if len(sid) != 1 or not (at[id(forks[0])] < sid[0] < at[id(forks[1])]):
                ctx.finding('%s:%s:session' % (R_DETACH, name), 'no new session is made between the two forks', here)
            dirs = [e for e in named if e.name == 'os.chdir']
            if not dirs or dirs[-1].args[0] != '/' or at[id(dirs[-1])] < at[id(forks[1])]:
                ctx.finding('%s:%s:chdir' % (R_DETACH, name), 'the daemon does not work from the root directory', where(dirs[-1]) if dirs else here)
            files = [e for e in named if e.name in ('os.close', 'os.dup2', 'os.open', 'os.dup')]
            ctx.ob(R_STREAMS)
            if noclose:
                if files:
                    ctx.finding('%s:%s:kept' % (R_STREAMS, name), 'descriptors are changed although they were to be kept', where(files[0]))
            else:
                null = [e for e in files if e.name == 'os.open' and e.args[0] == '/dev/null']
                to = set(e.args[1] for e in files if e.name == 'os.dup2')
                src = set(e.args[0] for e in files if e.name == 'os.dup2')
                if not null or not to >= set((1, 2)):
                    ctx.finding('%s:%s:open' % (R_STREAMS, name), 'standard output and error are not both redirected to the null device', here)
                elif not all(s == 0 or s in [n.result for n in null] or (isinstance(s, Term) and 'fd' in repr(s)) for s in src):
                    ctx.finding('%s:%s:source' % (R_STREAMS, name), 'standard output or error is redirected to something else than the null device', where(files[-1]))
    if seen != set((1, 2, 'daemon')) and not ctx.findings:
        raise NoVerdict('expected outcomes of %s are missing: %r' % (name, seen))
    if faults:
        for call in ('os.fork!', 'os.setsid!', 'os.chdir!') + (('os.file.open!',) if pidfile else ()) + (() if noclose else ('os.open!', 'os.dup2!')):
            ctx.ob(R_ERR)
            if call not in reported and not ctx.findings:
                raise NoVerdict('no outcome of a failing %s (%s)' % (call, name))


def mentions(v, pid):
    if v == pid or v == Term('str', pid):
        return True
    if isinstance(v, tuple):
        return any(mentions(x, pid) for x in v)
    if isinstance(v, Term):
        return any(mentions(x, pid) for x in v.args)
    return hasattr(v, 'parts') and any(mentions(x, pid) for x in v.parts)


def same_pid(writes, pidfile, pid):
    """The written text is the pid, possibly followed by a line end."""
    if not writes or any(w.args[0] != pidfile for w in writes):
        return False
    parts = []
    for w in writes:
        v = w.args[1]
        parts += list(v.parts) if hasattr(v, 'parts') else [v]
    first = parts[0] if parts else None
    return first in (pid, Term('str', pid)) and all(isinstance(x, str) and not x.strip() for x in parts[1:])
