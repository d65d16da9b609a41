"""What a check works with: findings, obligation counts, cached analyses, evidence."""
import collections
import json
import os
import pickle
import time
import traceback
from . import project
from .extract import Extraction, BACKENDS, flatten
from .interp import Unsupported
from .sqlparse import SqlError, SqlUnknown, show_text
from .sqlsem import Program

EVIDENCE = os.path.join(project.HERE, 'evidence')
KNOWN = os.path.join(project.HERE, 'known_findings.txt')


class NoVerdict(Exception):
    """The check cannot decide (its own limitation, or its subject has vanished)."""


class Finding(object):
    def __init__(self, key, msg, locs, detail):
        self.key, self.msg, self.locs, self.detail = key, msg, locs, detail


def fmt(loc):
    if not loc:
        return None
    if isinstance(loc, tuple):
        f = loc[0]
        s = '%s:%s' % (f, loc[1])
        if len(loc) > 2 and loc[2]:
            s += ' (%s)' % loc[2]
        return s
    return str(loc)


def file_of(mod):
    """Path of an analysed module, as shown to the reader."""
    return mod


class Ctx(object):
    def __init__(self, prop):
        self.prop = prop
        self.findings = collections.OrderedDict()
        self.obligations = collections.Counter()
        self.counts = collections.Counter()
        self.functions = set()
        self.assumptions = set()
        self.samples = []
        self.expected = []
        self.rules = collections.OrderedDict()
        self.cache = {}
        self.start = time.time()

    # -- bookkeeping

    def rule(self, name, text):
        """Declare a rule; it must be applied at least once on every run."""
        self.rules[name] = text

    def ob(self, rule, n=1):
        if rule not in self.rules:
            raise NoVerdict('undeclared rule %s' % rule)
        self.obligations[rule] += n

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def finding(self, key, msg, locs=(), detail=None):
        if key not in self.findings:
            ls = []
            for l in locs:
                s = fmt(l)
                if s and s not in ls:
                    ls.append(s)
            self.findings[key] = Finding(key, msg, ls, detail)

    def took(self, it):
        self.functions |= it.analysed_funcs
        self.assumptions |= it.assumptions
        self.counts['joined states'] += it.joins
        self.counts['loops summarised'] += it.loops

    def parallel(self, fn, items, groups=8):
        """Apply fn to every item, in child processes; their results are merged into this context."""
        items = list(items)
        n = min(groups, len(items))
        if n < 2 or os.environ.get('VP_SERIAL'):
            for x in items:
                fn(x)
            return
        kids = []
        for g in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    with os.fdopen(w, 'wb') as fh:
                        fh.write(self.child(fn, items[g::n]))
                except BaseException:
                    traceback.print_exc()
                    code = 1
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        errors = []
        for pid, r in kids:
            with os.fdopen(r, 'rb') as fh:
                data = fh.read()
            os.waitpid(pid, 0)
            if not data:
                errors.append('a worker process died')
                continue
            d = pickle.loads(data)
            for k, f in d['findings'].items():
                self.findings.setdefault(k, f)
            self.obligations.update(d['obligations'])
            self.counts.update(d['counts'])
            self.functions |= d['functions']
            self.assumptions |= d['assumptions']
            for x in d['samples']:
                self.sample(x)
            if d['error']:
                errors.append(d['error'])
        if errors:
            raise NoVerdict(errors[0])

    def child(self, fn, items):
        self.findings = collections.OrderedDict()
        self.obligations = collections.Counter()
        self.counts = collections.Counter()
        self.functions, self.assumptions, self.samples = set(), set(), []
        error = None
        try:
            for x in items:
                fn(x)
        except (NoVerdict, Unsupported, SqlUnknown) as e:
            error = str(e) or type(e).__name__
            if os.environ.get('VP_DEBUG'):
                traceback.print_exc()
        except Exception as e:
            error = '%s: %s' % (type(e).__name__, e)
            traceback.print_exc()
        return pickle.dumps(dict(
            findings=collections.OrderedDict((str(k), Finding(str(f.key), str(f.msg), [str(l) for l in f.locs], str(f.detail) if f.detail else None))
                                             for k, f in self.findings.items()),
            obligations=self.obligations, counts=self.counts, functions=set((str(a), str(b)) for a, b in self.functions),
            assumptions=set(str(a) for a in self.assumptions), samples=[str(x) for x in self.samples], error=error))

    # -- analyses

    def extraction(self, shape, backend='sqlite', **kw):
        key = (shape, backend, repr(sorted(kw.items(), key=repr)))
        if key not in self.cache or 'run' in kw:
            try:
                x = Extraction(shape, backend, **kw)
            except Unsupported as e:
                raise NoVerdict('%s on %s: %s' % (shape, backend, e))
            self.counts['analysis runs'] += 1
            self.took(x.it)
            self.cache[key] = x
        return self.cache[key]

    def ok_result(self, x, what, key, allow=()):
        """The normal outcome of a run; an exception is a finding."""
        good = None
        for r in x.results:
            if r.kind == 'raise':
                cls, args = r.error()
                if cls in allow:
                    continue
                exc = r.it.get(r.value)
                site = exc.attrs.get('__site__') or exc.site or ()
                self.finding('%s:raises:%s' % (key, cls), '%s raises %s%s%s' % (what, cls, show_args(args), when_text(r)), proj_sites(site))
            elif good is None:
                good = r
            else:
                raise NoVerdict('several outcomes for %s' % what)
        if good is not None:
            good.use()
        return good

    def program(self, shape, backend, **kw):
        """Trigger program installed for a model set, or None when that fails (a finding)."""
        key = ('program', shape, backend, repr(sorted(kw.items(), key=repr)))
        if key in self.cache:
            return self.cache[key]
        x = self.extraction(shape, backend, **kw)
        name = '%s/%s' % (shape, backend)
        r = self.ok_result(x, 'installing triggers for model set %s on %s' % (shape, backend), name)
        p = None
        if r is not None:
            p = Program(x.schema, backend)
            try:
                p.load(trigger_execs(r.execs())).check_names()
            except SqlUnknown as e:
                raise NoVerdict('%s: %s' % (name, e))
            p.result = r
            p.extraction = x
            self.counts['SQL statements'] += p.statements
            self.counts['triggers'] += len(p.triggers)
            for msg, src, ex in p.errors:
                self.finding('%s:sql:%s' % (name, msg[:60]), 'generated SQL is invalid on %s: %s' % (backend, msg), [src] + ex.srcs()[:6], show_text_any(ex.sql))
            if p.errors:
                p = None
            elif not p.triggers:
                self.finding('%s:no-triggers' % name, 'no trigger is created for model set %s on %s' % (shape, backend), [])
                p = None
        self.cache[key] = p
        return p


def trigger_execs(execs):
    """Statements of an installation apart from bookkeeping conditional on catalogue contents."""
    return execs


def show_args(args):
    if not args:
        return ''
    try:
        return '(%s)' % ', '.join(show_text_any(a) for a in args)
    except Exception:
        return ''


def show_text_any(v):
    try:
        return show_text(v)
    except Exception:
        return repr(v)


def when_text(r):
    pc = [c for c in r.state.pc]
    if not pc:
        return ''
    return ' when ' + ' and '.join(('' if v else 'not ') + repr(c) for c, v in pc[:4])


def proj_sites(sites):
    """Call sites inside the analysed project, innermost first."""
    out = []
    for s in reversed(list(sites)):
        if s and str(s[0]).startswith('denorm'):
            out.append(s)
    return out or [s for s in reversed(list(sites))][:2]


# ---- known findings -------------------------------------------------------------------------------

def known_findings(prop):
    """key -> text of the findings recorded for the property."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line or line.startswith('#') or line.startswith('fixed:'):
            continue
        p, key, text = [x.strip() for x in line.split('|', 2)]
        if p == prop:
            out[key] = text
    return out
