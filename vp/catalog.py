"""What statements do to the set of triggers of a database: reading the catalogue, dropping, creating."""
from .interp import Ev, IfEv, StarEv, trace_list
from .sqlparse import SqlError, SqlUnknown, parse, alternatives, show_text
from .sqlsem import Program, Run, Schema, Table, Col, Effects
from .values import Term, SStr, Ite, sparts


class Failed(Exception):
    """A statement the database rejects."""
    def __init__(self, msg, ev):
        Exception.__init__(self, msg)
        self.ev = ev


def cols(*names):
    return [Col(n, n, 'text', i == 0) for i, n in enumerate(names)]


CATALOGUES = {
    'sqlite': [Table('sqlite_master', 'sqlite_master', cols('name', 'type', 'tbl_name', 'rootpage', 'sql'))],
    'mysql': [Table('triggers', 'triggers', cols('trigger_name', 'trigger_schema', 'event_object_table', 'event_manipulation', 'action_timing'))],
    'postgresql': [Table('pg_trigger', 'pg_trigger', cols('tgname', 'tgrelid', 'tgisinternal', 'oid')),
                   Table('pg_class', 'pg_class', cols('oid', 'relname', 'relnamespace', 'relkind')),
                   Table('pg_language', 'pg_language', cols('lanname')),
                   Table('pg_proc', 'pg_proc', cols('proname', 'oid')),
                   Table('triggers', 'triggers', cols('trigger_name', 'trigger_schema', 'event_object_table', 'event_manipulation', 'action_timing'))],
}


class Database(object):
    """Names of triggers, as (name, table), and of functions."""
    def __init__(self, dialect, triggers, functions=(), language=True):
        self.dialect = dialect
        self.triggers = list(triggers)
        self.functions = set(functions)
        self.language = language

    def world(self):
        t = sorted(self.triggers)
        tables = sorted(set(b for a, b in t))
        if self.dialect == 'sqlite':
            rows = [dict(name=a, type='trigger', tbl_name=b, rootpage=0, sql='CREATE TRIGGER') for a, b in t]
            rows += [dict(name=b, type='table', tbl_name=b, rootpage=2, sql='CREATE TABLE') for b in tables]
            rows += [dict(name='denorm_dirtyinstance', type='table', tbl_name='denorm_dirtyinstance', rootpage=3, sql='CREATE TABLE'),
                     dict(name='denorm_dirtyinstance_object_id', type='index', tbl_name='denorm_dirtyinstance', rootpage=4, sql='CREATE INDEX')]
            return {'sqlite_master': rows}
        info = [dict(trigger_name=a, trigger_schema='db', event_object_table=b, event_manipulation='UPDATE', action_timing='AFTER') for a, b in t]
        if self.dialect == 'mysql':
            return {'triggers': info}
        oid = {b: 100 + i for i, b in enumerate(tables)}
        return {'pg_trigger': [dict(tgname=a, tgrelid=oid[b], tgisinternal=a.startswith('RI_'), oid=500 + i) for i, (a, b) in enumerate(t)],
                'pg_class': [dict(oid=oid[b], relname=b, relnamespace=1, relkind='r') for b in tables] + [dict(oid=99, relname='denorm_dirtyinstance', relnamespace=1, relkind='r')],
                'pg_language': [dict(lanname='plpgsql')] if self.language else [],
                'pg_proc': [dict(proname=f, oid=900 + i) for i, f in enumerate(sorted(self.functions))],
                'triggers': [r for r in info if not r['trigger_name'].startswith('RI_')]}

    def select(self, node, params):
        prog = Program(Schema(CATALOGUES[self.dialect]), self.dialect)
        run = Run.__new__(Run)
        run.p, run.w, run.old, run.new, run.eff = prog, self.world(), None, None, Effects()
        run.tr = Statement(params)
        if node.op == 'show':
            if node.a[0] != 'triggers' or self.dialect != 'mysql':
                raise SqlUnknown('SHOW %s' % node.a[0])
            t = Table('show', 'show', cols('trigger', 'event', 'table', 'statement', 'timing'))
            out = []
            from .sqlsem import Scope, t3, like
            for a, b in sorted(self.triggers):
                r = {'trigger': a, 'event': 'UPDATE', 'table': b, 'statement': 'BEGIN END', 'timing': 'AFTER'}
                if node.a[1] is not None and not like(run.ev(node.a[1], []), b, True, '\\'):
                    continue        # the pattern applies to the table's name
                if node.a[2] is not None and t3(run.ev(node.a[2], [Scope(t, None, r)])) is not True:
                    continue
                out.append((a, 'UPDATE', b, 'BEGIN END', 'AFTER'))
            return out
        return run.query(node, [])


class Statement(object):
    def __init__(self, params):
        self.ex = self
        self.params = params or ()
        self.table = Table('none', 'none', [])


QUOTE = {'sqlite': '"', 'postgresql': '"', 'mysql': '`'}


class Replay(object):
    """Follows a trace over an abstract catalogue."""
    def __init__(self, result, db, cache=None):
        self.r, self.db = result, db
        self.parsed = {} if cache is None else cache
        self.rows = {}          # result of a query -> rows
        self.log = []           # (what, name, table, event)
        self.on_create = None
        self.facts = result.state.facts

    def start(self):
        self.block(trace_list(self.r.state.trace), {})
        return self

    def block(self, evs, env):
        for e in evs:
            if isinstance(e, IfEv):
                c = self.term(e.c, env)
                self.block(e.a if c else e.b, env)
            elif isinstance(e, StarEv):
                self.loop(e, env)
            elif isinstance(e, Ev) and e.name == 'execute':
                self.execute(e, env)

    def loop(self, e, env):
        elems = []
        find_elems(e.body or (), elems)
        elems = [t for t in elems if t not in env]
        if not elems:
            if has_execute(e.body or ()):
                raise SqlUnknown('statements are executed in a loop over something unknown')
            return
        bases = set(t.args[0] for t in elems)
        if len(bases) != 1:
            raise SqlUnknown('loop over several results')
        for row in self.result_rows(bases.pop(), env):
            env2 = dict(env)
            for t in elems:
                env2[t] = row
            self.block(e.body or (), env2)

    def result_rows(self, t, env):
        if t.op == 'rows' and t.args[0] in self.rows:
            return list(self.rows[t.args[0]])
        raise SqlUnknown('rows of %r' % (t,))

    # -- values

    def term(self, v, env):
        if isinstance(v, Ite):
            return self.term(v.a if self.term(v.c, env) else v.b, env)
        if isinstance(v, SStr):
            return ''.join(str(self.term(p, env)) for p in v.parts)
        if isinstance(v, tuple):
            return tuple(self.term(x, env) for x in v)
        if not isinstance(v, Term):
            return v
        if v in env:
            return env[v]
        op = v.op
        if op in ('and', 'or'):
            vals = (self.term(x, env) for x in v.args)
            return all(vals) if op == 'and' else any(vals)
        if op == 'not':
            return not self.term(v.args[0], env)
        if op == 'rows':
            return self.result_rows(v, env)
        if op == 'elem':
            rows = self.result_rows(v.args[0], env)
            if not rows:
                raise SqlUnknown('first row of an empty result')
            return rows[0]
        if op == 'truth':
            return bool(self.term(v.args[0], env))
        if op == 'atom':
            if v.args[0] in ('fetchone', 'nonempty', 'rows') and v.args[1] in self.rows:
                return bool(self.rows[v.args[1]])
            if v.args[0] == 'nonempty' and isinstance(v.args[1], Term) and v.args[1].op == 'rows':
                return bool(self.result_rows(v.args[1], env))
            raise SqlUnknown('condition %r' % (v,))
        a = [self.term(x, env) for x in v.args]
        if op == 'item':
            return a[0][a[1]]
        if op in ('startswith', 'endswith'):
            return getattr(a[0], op)(a[1])
        if op in ('eq', 'is'):
            return a[0] == a[1]
        if op == 'in':
            return a[0] in a[1]
        if op == 'lt':
            return a[0] < a[1]
        if op == 'le':
            return a[0] <= a[1]
        if op == 'len':
            return len(a[0])
        if op == 'str':
            return str(a[0])
        if op == 'qn':
            q = QUOTE[self.db.dialect]
            s = a[1]
            return s if s[:1] == q and s[-1:] == q else q + s + q
        if op in ('slice', 'strop') and op == 'slice':
            return a[0][slice(*a[1])]
        if op == 'strop':
            if a[0] == 'slice':
                return a[1][slice(*a[2])]
            if a[0] in ('lower', 'upper', 'strip'):
                return getattr(a[1], a[0])()
        raise SqlUnknown('value %r' % (v,))

    # -- statements

    def execute(self, e, env):
        sql = e.args[1]
        text = None
        try:
            text = self.term(sql, env)
        except SqlUnknown:
            self.create(e, sql)
            return
        ps = e.args[2]
        if isinstance(ps, tuple) and ps and ps[0] == 'list':
            ps = ps[1:]
        try:
            nodes, nparam, toks = parse(text, self.db.dialect, ps is not None)
        except SqlError as x:
            raise Failed('%s in %s' % (x, text), e)
        for n in nodes:
            if n.op in ('select', 'union', 'show'):
                try:
                    self.rows[e.result] = self.db.select(n, self.term(ps, env) if ps is not None else ())
                except SqlError as x:
                    raise Failed('%s in %s' % (x, text), e)
            elif n.op == 'drop' and n.a[0] == 'trigger':
                self.drop(n, e, text)
            elif n.op == 'drop' and n.a[0] == 'function':
                name = self.ident(n.a[1])
                if name not in self.db.functions and not n.exists:
                    raise Failed('there is no function %s to drop' % name, e)
                self.db.functions.discard(name)
            elif n.op == 'create_language':
                if self.db.language:
                    raise Failed('the language exists already', e)
                self.db.language = True
            elif n.op in ('trigger', 'function'):
                self.create(e, sql)
            else:
                raise SqlUnknown('statement %s' % n.op)

    def ident(self, n):
        v = n.a[0]
        return v if n.quoted or self.db.dialect != 'postgresql' else v.lower()

    def drop(self, n, e, text):
        name = self.ident(n.a[1])
        if self.db.dialect == 'postgresql':
            if n.a[2] is None:
                raise Failed('DROP TRIGGER without its table: %s' % text, e)
            on = n.a[2].a[1] if n.a[2].op == 'dotted' else n.a[2]
            table = self.ident(on)
            hit = [t for t in self.db.triggers if t == (name, table)]
        else:
            if n.a[2] is not None:
                raise Failed('DROP TRIGGER with a table: %s' % text, e)
            hit = [t for t in self.db.triggers if t[0] == name or self.db.dialect == 'sqlite' and t[0].lower() == name.lower()]
        if not hit and not n.exists:
            raise Failed('there is no such trigger: %s' % text, e)
        for t in hit:
            self.db.triggers.remove(t)
            self.log.append(('drop', t[0], t[1], e))

    def create(self, e, sql):
        if id(e) not in self.parsed:
            self.parsed[id(e)] = e
            self.check_create(e, sql)
        self.log.append(('create', sql, None, e))

    def check_create(self, e, sql):
        for asg, text in alternatives(sql):
            try:
                nodes, nparam, toks = parse(text, self.db.dialect, e.args[2] is not None)
            except SqlError as x:
                raise Failed('%s' % x, e)
            for n in nodes:
                if n.op not in ('trigger', 'function'):
                    raise SqlUnknown('statement %s' % n.op)


def find_elems(v, out):
    if isinstance(v, (list, tuple)):
        for x in v:
            find_elems(x, out)
    elif isinstance(v, IfEv):
        find_elems(v.c, out)
        find_elems(v.a, out)
        find_elems(v.b, out)
    elif isinstance(v, StarEv):
        find_elems(v.body or (), out)
    elif isinstance(v, Ev):
        find_elems(v.args, out)
    elif isinstance(v, SStr):
        find_elems(list(v.parts), out)
    elif isinstance(v, Ite):
        find_elems([v.c, v.a, v.b], out)
    elif isinstance(v, Term):
        if v.op == 'elem':
            if v not in out:
                out.append(v)
        else:
            find_elems(list(v.args), out)


def has_execute(evs):
    for e in evs:
        if isinstance(e, Ev) and e.name == 'execute':
            return True
        if isinstance(e, IfEv) and (has_execute(e.a) or has_execute(e.b)):
            return True
        if isinstance(e, StarEv) and has_execute(e.body or ()):
            return True
    return False
