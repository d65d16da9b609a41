"""Meaning of trigger programs: effect of one row operation on a small abstract table state.

Row values are the equality types that matter (NULL, and a few pairwise different values), so
that looking at every combination decides equality-only trigger programs for all data."""
from .values import Term, SStr, sparts
from .sqlparse import SqlError, SqlUnknown, N, parse, alternatives, show_text


class Fresh(object):
    """Result of a random generator, with its range."""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return 'random(%g..%g)' % (self.lo, self.hi)


class Table(object):
    def __init__(self, label, db_table, cols, proxy=False):
        self.label, self.db_table, self.cols, self.proxy = label, db_table, cols, proxy
        self.by_att = {c.attname: c for c in cols}

    def find(self, name):
        for c in self.cols:
            if c.column == name:
                return c
        if isinstance(name, str):
            for c in self.cols:
                # a declared model may name its columns differently; the library's own tables do not
                if c.attname == name and not self.label.startswith('app.') or (isinstance(c.column, str) and c.column.lower() == name.lower()):
                    return c
        return None

    def __repr__(self):
        return self.label


class Col(object):
    def __init__(self, attname, column, db_type, pk, name=None):
        self.attname, self.column, self.db_type, self.pk, self.name = attname, column, db_type, pk, name

    def __repr__(self):
        return self.attname


class Schema(object):
    def __init__(self, tables):
        self.tables = tables
        self.by_label = {t.label: t for t in tables}

    def table(self, name):
        for t in self.tables:
            if not t.proxy and (t.db_table == name or (isinstance(t.db_table, str) and isinstance(name, str) and t.db_table.lower() == name.lower())):
                return t
        return None

    def __getitem__(self, label):
        return self.by_label[label]


class TrigDef(object):
    """An installed row trigger."""
    def __init__(self, name, table, events, time, when, body, ex, node, of=None):
        self.name, self.table, self.events, self.time, self.when, self.body = name, table, events, time, when, body
        self.ex, self.node, self.of = ex, node, of

    def __repr__(self):
        return '<%s %s %s>' % (self.time, '/'.join(self.events), self.table)


class Program(object):
    """All triggers created by one installation."""
    def __init__(self, schema, dialect):
        self.schema, self.dialect = schema, dialect
        self.triggers = []
        self.other = []
        self.errors = []        # (message, src, exec)
        self.statements = 0

    def load(self, execs):
        for ex in execs:
            sql = ex.sql
            if isinstance(sql, Term) and not isinstance(sql, str):
                raise SqlUnknown('statement text is unknown: %r' % (sql,))
            seen = set()
            variants = []
            for asg, text in alternatives(sql):
                try:
                    nodes, nparam, toks = parse(text, self.dialect, ex.params is not None)
                except SqlError as e:
                    self.errors.append((str(e), e.src, ex))
                    continue
                self.statements += len(nodes)
                if ex.params is not None and isinstance(ex.params, tuple) and len(ex.params) != nparam:
                    self.errors.append(('statement has %d placeholders but %d parameters' % (nparam, len(ex.params)), ex.src(), ex))
                if self.dialect == 'sqlite' and nparam and any(n.op == 'trigger' for n in nodes):
                    self.errors.append(('trigger cannot use variables', ex.src(), ex))
                key = repr([strip_names(n) for n in nodes])
                variants.append((asg, nodes))
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > 1:
                    raise SqlUnknown('statement has alternatives with different meaning')
                self.add(nodes, ex)
            ex.variants = variants
        return self

    def add(self, nodes, ex):
        funcs = {}
        for n in nodes:
            if n.op == 'function':
                funcs[n.a[0].a[0]] = n
            elif n.op == 'trigger':
                tname = n.table
                if tname.op == 'dotted':
                    tname = tname.a[1]
                t = self.schema.table(tname.a[0])
                if t is None:
                    self.errors.append(('trigger on unknown table %s' % show_text(tname.a[0]), n.src, ex))
                    continue
                body = n.body
                if n.func is not None:
                    f = funcs.get(n.func.a[0])
                    if f is None:
                        self.errors.append(('trigger executes function %s which is not created with it' % show_text(n.func.a[0]), n.src, ex))
                        continue
                    body = f.a[1]
                if not n.each:
                    self.errors.append(('trigger is not FOR EACH ROW', n.src, ex))
                self.triggers.append(TrigDef(n.a[0], t, n.events, n.time or 'before', n.when, body, ex, n, n.of))
            else:
                self.other.append((n, ex))

    def check_names(self):
        """Every name in every trigger refers to something that exists."""
        for tr in self.triggers:
            ch = NameCheck(self, tr)
            try:
                if tr.when is not None:
                    ch.expr(tr.when, [])
                for c in tr.of or ():
                    if tr.table.find(c.a[0]) is None:
                        raise SqlError('no column %s in %s' % (show_text(c.a[0]), tr.table.label), c.src)
                ch.block(tr.body)
            except SqlError as e:
                self.errors.append((str(e), e.src, tr.ex))
        return self

    # -- operations

    def fire(self, world, table, event, old, new, before=False):
        """Run the row triggers for one row operation on an already updated world. Returns Effects."""
        eff = Effects()
        for tr in self.triggers:
            if tr.table is not table and tr.table.label != table.label:
                continue
            if event not in tr.events:
                continue
            if tr.of is not None and event == 'update':
                # fires when a listed column is among the assigned ones; assigned = changed here
                names = [tr.table.find(c.a[0]).attname for c in tr.of]
                if not any(old[a] != new[a] for a in names):
                    continue
            r = Run(self, tr, world, old, new, eff)
            r.start()
        return eff


class Effects(object):
    def __init__(self):
        self.marks = []         # (ct, object id, src node)
        self.updates = []       # (label, row pk-index, attname, old, new, src)
        self.deletes = []
        self.inserts = []

    def mark_set(self, ct):
        return set(o for c, o, n in self.marks if c == ct)


def strip_names(n):
    """Statement without the trigger's / function's own name."""
    if n.op == 'trigger':
        return ('trigger', repr(n.table), n.events, n.time, repr(n.when), repr(n.body), n.of, n.func is None)
    if n.op == 'function':
        return ('function', repr(n.a[1]))
    return repr(n)


def conj_list(e):
    if e.op == 'paren':
        return conj_list(e.a[0])
    if e.op == 'and':
        return conj_list(e.a[0]) + conj_list(e.a[1])
    return [e]


def rowref(n):
    """'old' / 'new' if the qualifier names the trigger row."""
    v = n.a[0]
    if isinstance(v, str) and not n.quoted and v.lower() in ('old', 'new'):
        return v.lower()
    return None


class Scope(object):
    def __init__(self, table, alias, row=None):
        self.table, self.alias, self.row = table, alias, row

    def named(self, n):
        v = n.a[0]
        if self.alias is not None:
            return self.alias.a[0] == v
        return v == self.table.db_table


class NameCheck(object):
    def __init__(self, prog, tr):
        self.p, self.tr = prog, tr

    def table(self, n):
        if n.op == 'dotted':
            n = n.a[1]
        t = self.p.schema.table(n.a[0])
        if t is None:
            raise SqlError('no table %s' % show_text(n.a[0]), n.src)
        return t

    def column(self, t, n):
        c = t.find(n.a[0])
        if c is None:
            raise SqlError('no column %s in table of %s' % (show_text(n.a[0]), t.label), n.src)
        return c

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        if s.op == 'insert':
            t = self.table(s.a[0])
            cols = s.a[1]
            n = len(t.cols)
            if cols is not None:
                for c in cols:
                    self.column(t, c)
                n = len(cols)
            q = s.a[2]
            if q.op == 'values':
                for row in q.a[0]:
                    if len(row) != n:
                        raise SqlError('%d values for %d columns' % (len(row), n), s.src)
                    for e in row:
                        self.expr(e, [])
            else:
                if self.query(q, []) not in (n, None):
                    raise SqlError('selected columns do not match the %d inserted columns' % n, s.src)
        elif s.op == 'update':
            t = self.table(s.a[0])
            sc = [Scope(t, None)]
            for c, e in s.a[1]:
                self.column(t, c)
                self.expr(e, sc)
            if s.a[2] is not None:
                self.expr(s.a[2], sc)
        elif s.op == 'delete':
            t = self.table(s.a[0])
            if s.a[1] is not None:
                self.expr(s.a[1], [Scope(t, None)])
        elif s.op == 'if':
            for c, b in s.a[0]:
                self.expr(c, [])
                self.block(b)
            if s.a[1]:
                self.block(s.a[1])
        elif s.op == 'block':
            self.block(s.a[0])
            for _, b in s.a[1]:
                self.block(b)
        elif s.op == 'return':
            e = s.a[0]
            if not (e.op == 'null' or (e.op == 'col' and e.a[0] is None and rowref(e.a[1]))):
                raise SqlUnknown('RETURN value')
        elif s.op in ('select', 'union'):
            self.query(s, [])
        elif s.op == 'nop':
            pass
        else:
            raise SqlUnknown('statement %s' % s.op)

    def query(self, q, outer):
        if q.op == 'union':
            a = self.query(q.a[0], outer)
            b = self.query(q.a[1], outer)
            if a is not None and b is not None and a != b:
                raise SqlError('UNION of different widths', q.src)
            return a
        items, frm, where = q.a
        sc = []
        for f in frm:
            sc.append(Scope(self.table(f.a[0]), f.a[1]))
        scope = sc + list(outer)
        for f in frm:
            if f.on is not None:
                self.expr(f.on, scope)
        n = 0
        for e in items:
            if e.op == 'star':
                n = None
                continue
            self.expr(e, scope)
            if n is not None:
                n += 1
        if where is not None:
            self.expr(where, scope)
        return n

    def col(self, e, scope):
        q, n = e.a
        if q is not None:
            r = rowref(q)
            if r:
                if r == 'old' and self.tr.events == ['insert']:
                    raise SqlError('OLD is not available in an INSERT trigger', e.src)
                if r == 'new' and self.tr.events == ['delete']:
                    raise SqlError('NEW is not available in a DELETE trigger', e.src)
                return self.column(self.tr.table, n)
            for s in scope:
                if s.named(q):
                    return self.column(s.table, n)
            raise SqlError('unknown table or alias %s' % show_text(q.a[0]), e.src)
        for s in scope:
            c = s.table.find(n.a[0])
            if c is not None:
                return c
        raise SqlError('no column %s %s' % (show_text(n.a[0]), 'in ' + ', '.join(s.table.label for s in scope) if scope else 'here'), e.src)

    def expr(self, e, scope):
        op = e.op
        if op == 'col':
            return self.col(e, scope)
        if op in ('num', 'str', 'param', 'null', 'bool', 'star'):
            return None
        if op == 'cmp':
            for x in (e.a[1], e.a[2]):
                c = self.expr(x, scope)
                if isinstance(c, Col) and c.db_type is None and self.p.dialect == 'postgresql':
                    raise SqlError('column %s of a type without equality operator is compared without conversion to text' % c.attname, e.src)
            return None
        if op == 'paren':
            return self.expr(e.a[0], scope)
        if op in ('scalar', 'exists'):
            self.query(e.a[0], scope)
            return None
        if op == 'insel':
            self.expr(e.a[0], scope)
            if self.query(e.a[1], scope) not in (1, None):
                raise SqlError('subquery of IN must have one column', e.src)
            return None
        if op == 'inlist':
            self.expr(e.a[0], scope)
            for x in e.a[1]:
                self.expr(x, scope)
            return None
        if op == 'case':
            base, br, other = e.a
            for x in [base, other] + [y for b in br for y in b]:
                if x is not None:
                    self.expr(x, scope)
            return None
        if op == 'call':
            for x in e.a[1]:
                self.expr(x, scope)
            self.known_function(e)
            return None
        for x in e.a:
            if isinstance(x, N):
                self.expr(x, scope)
        return None

    FUNCS = {'sqlite': ('random', 'coalesce', 'ifnull', 'abs', 'nullif', 'count', 'sum', 'max', 'min', 'total', 'lower', 'upper'),
             'mysql': ('rand', 'coalesce', 'ifnull', 'abs', 'nullif', 'count', 'sum', 'max', 'min', 'floor', 'greatest', 'least', 'lower', 'upper', 'round', 'if', 'truncate'),
             'postgresql': ('random', 'coalesce', 'abs', 'nullif', 'count', 'sum', 'max', 'min', 'floor', 'greatest', 'least', 'lower', 'upper', 'round', 'trunc')}

    def known_function(self, e):
        f = e.a[0]
        if f in self.FUNCS[self.p.dialect]:
            return
        for d in self.FUNCS:
            if f in self.FUNCS[d]:
                raise SqlError('function %s() does not exist on %s' % (f, self.p.dialect), e.src)
        raise SqlUnknown('function %s()' % (f,))


def value_key(v):
    if isinstance(v, bool):
        return int(v)
    return v


def equal(a, b):
    if isinstance(a, Fresh) or isinstance(b, Fresh):
        return False
    a, b = value_key(a), value_key(b)
    if type(a) != type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        if isinstance(a, str) or isinstance(b, str):
            return str(a) == str(b)
    return a == b


def t3(v):
    """Truth value of an SQL value."""
    if v is None or v is True or v is False:
        return v
    if isinstance(v, (int, float)):
        return v != 0
    raise SqlUnknown('truth value of %r' % (v,))


class Run(object):
    """One trigger activation."""
    def __init__(self, prog, tr, world, old, new, eff):
        self.p, self.tr, self.w, self.old, self.new, self.eff = prog, tr, world, old, new, eff

    def start(self):
        if self.tr.when is not None and t3(self.ev(self.tr.when, [])) is not True:
            return
        self.block(self.tr.body)

    def block(self, stmts):
        for s in stmts:
            if self.stmt(s) == 'return':
                return 'return'

    def table(self, n):
        if n.op == 'dotted':
            n = n.a[1]
        t = self.p.schema.table(n.a[0])
        if t is None:
            raise SqlError('no table %s' % show_text(n.a[0]), n.src)
        return t

    def stmt(self, s):
        if s.op == 'if':
            for c, b in s.a[0]:
                if t3(self.ev(c, [])) is True:
                    return self.block(b)
            if s.a[1]:
                return self.block(s.a[1])
        elif s.op == 'block':
            return self.block(s.a[0])
        elif s.op == 'return':
            return 'return'
        elif s.op == 'nop':
            pass
        elif s.op == 'insert':
            t = self.table(s.a[0])
            cols = [t.find(c.a[0]) for c in s.a[1]] if s.a[1] is not None else t.cols
            if None in cols:
                raise SqlError('no such column in %s' % t.label, s.src)
            q = s.a[2]
            if q.op == 'values':
                rows = [tuple(self.ev(e, []) for e in r) for r in q.a[0]]
            else:
                rows = self.query(q, [])
            for r in rows:
                if len(r) != len(cols):
                    raise SqlError('%d values for %d columns' % (len(r), len(cols)), s.src)
                d = {c.attname: v for c, v in zip(cols, r)}
                if t.label == 'denorm.DirtyInstance':
                    self.eff.marks.append((d.get('content_type_id'), d.get('object_id'), s))
                else:
                    self.eff.inserts.append((t.label, d, s))
        elif s.op == 'update':
            t = self.table(s.a[0])
            for row in self.w[t.label]:
                sc = [Scope(t, None, row)]
                if s.a[2] is not None and t3(self.ev(s.a[2], sc)) is not True:
                    continue
                new = {}
                cur = dict(row)
                for c, e in s.a[1]:
                    col = t.find(c.a[0])
                    if col is None:
                        raise SqlError('no column %s in %s' % (show_text(c.a[0]), t.label), c.src)
                    v = self.ev(e, sc)
                    new[col.attname] = v
                    if self.p.dialect == 'mysql':
                        row[col.attname] = v        # left to right assignment
                for k, v in new.items():
                    self.eff.updates.append((t.label, row, k, cur[k], v, s))
                    row[k] = v
        elif s.op == 'delete':
            t = self.table(s.a[0])
            keep = []
            for row in self.w[t.label]:
                if s.a[1] is None or t3(self.ev(s.a[1], [Scope(t, None, row)])) is True:
                    self.eff.deletes.append((t.label, row, s))
                else:
                    keep.append(row)
            self.w[t.label][:] = keep
        elif s.op in ('select', 'union'):
            self.query(s, [])
        else:
            raise SqlUnknown('statement %s' % s.op)

    def query(self, q, outer):
        if q.op == 'union':
            a = self.query(q.a[0], outer) + self.query(q.a[1], outer)
            return a if q.all else dedup(a)
        items, frm, where = q.a
        combos = [[]]
        for f in frm:
            t = self.table(f.a[0])
            nxt = []
            for c in combos:
                hit = False
                for row in self.w[t.label]:
                    sc = c + [Scope(t, f.a[1], row)]
                    if f.on is not None and t3(self.ev(f.on, sc + outer)) is not True:
                        continue
                    hit = True
                    nxt.append(sc)
                if f.join == 'left' and not hit:
                    nxt.append(c + [Scope(t, f.a[1], {k.attname: None for k in t.cols})])
            combos = nxt
        rows = []
        good = []
        for sc in combos:
            if where is None or t3(self.ev(where, sc + outer)) is True:
                good.append(sc)
        agg = [e for e in items if is_agg(e)]
        if agg:
            return [tuple(self.agg(e, good, outer) for e in items)]
        for sc in good:
            out = []
            for e in items:
                if e.op == 'star':
                    for s in sc:
                        out.extend(s.row[c.attname] for c in s.table.cols)
                else:
                    out.append(self.ev(e, sc + outer))
            rows.append(tuple(out))
        if q.limit is not None:
            rows = rows[:self.ev(q.limit, outer)]
        return dedup(rows) if q.distinct else rows

    def agg(self, e, rows, outer):
        if e.op == 'paren':
            return self.agg(e.a[0], rows, outer)
        if e.op == 'call' and e.a[0] in ('count', 'sum', 'max', 'min', 'total'):
            f = e.a[0]
            if e.a[1] and e.a[1][0].op == 'star':
                vals = [1 for _ in rows]
            else:
                vals = [self.ev(e.a[1][0], sc + outer) for sc in rows]
                vals = [v for v in vals if v is not None]
            if e.distinct:
                vals = dedup(vals)
            if f == 'count':
                return len(vals)
            if f == 'total':
                return sum(vals)
            if not vals:
                return None
            return {'sum': sum, 'max': max, 'min': min}[f](vals)
        if e.op == 'call' and e.a[0] in ('coalesce', 'ifnull'):
            for x in e.a[1]:
                v = self.agg(x, rows, outer)
                if v is not None:
                    return v
            return None
        if is_agg(e):
            raise SqlUnknown('aggregate expression')
        return self.ev(e, outer)

    def lookup(self, e, scope):
        q, n = e.a
        if q is not None:
            r = rowref(q)
            if r:
                row = self.old if r == 'old' else self.new
                if row is None:
                    raise SqlError('%s is not available here' % r.upper(), e.src)
                c = self.tr.table.find(n.a[0])
                if c is None:
                    raise SqlError('no column %s in %s' % (show_text(n.a[0]), self.tr.table.label), e.src)
                return row[c.attname]
            for s in scope:
                if s.named(q):
                    c = s.table.find(n.a[0])
                    if c is None:
                        raise SqlError('no column %s in %s' % (show_text(n.a[0]), s.table.label), e.src)
                    return s.row[c.attname]
            raise SqlError('unknown table or alias %s' % show_text(q.a[0]), e.src)
        for s in scope:
            c = s.table.find(n.a[0])
            if c is not None:
                return s.row[c.attname]
        raise SqlError('no column %s' % show_text(n.a[0]), e.src)

    def ev(self, e, sc):
        op = e.op
        if op == 'col':
            return self.lookup(e, sc)
        if op == 'paren':
            return self.ev(e.a[0], sc)
        if op == 'num':
            v = e.a[0]
            if isinstance(v, Term):
                if v.op == 'str' and isinstance(v.args[0], Term):
                    v = v.args[0]
                return v
            return v
        if op == 'str':
            return e.a[0]
        if op == 'null':
            return None
        if op == 'bool':
            return e.a[0]
        if op == 'param':
            ps = self.tr.ex.params
            if e.a[0] >= len(ps):
                raise SqlError('placeholder without parameter', e.src)
            return ps[e.a[0]]
        if op == 'and':
            a = t3(self.ev(e.a[0], sc))
            b = t3(self.ev(e.a[1], sc))
            if a is False or b is False:
                return False
            return None if a is None or b is None else True
        if op == 'or':
            a = t3(self.ev(e.a[0], sc))
            b = t3(self.ev(e.a[1], sc))
            if a is True or b is True:
                return True
            return None if a is None or b is None else False
        if op == 'not':
            a = t3(self.ev(e.a[0], sc))
            return None if a is None else not a
        if op == 'isnull':
            return self.ev(e.a[0], sc) is None
        if op == 'istrue':
            a = t3(self.ev(e.a[0], sc))
            return {'true': a is True, 'false': a is False, 'unknown': a is None}[e.a[1]]
        if op == 'cmp':
            o = e.a[0]
            a = self.ev(e.a[1], sc)
            b = self.ev(e.a[2], sc)
            if o == '<=>':
                if a is None or b is None:
                    return a is None and b is None
                return equal(a, b)
            if a is None or b is None:
                return None
            if o == '=':
                return equal(a, b)
            if o == '<>':
                return not equal(a, b)
            a, b = value_key(a), value_key(b)
            if isinstance(a, (Term, Fresh)) or isinstance(b, (Term, Fresh)) or isinstance(a, str) != isinstance(b, str):
                raise SqlUnknown('order comparison of %r and %r' % (a, b))
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[o]
        if op == 'bin':
            a = self.ev(e.a[1], sc)
            b = self.ev(e.a[2], sc)
            if a is None or b is None:
                return None
            return arith(e.a[0], a, b)
        if op in ('neg', 'pos'):
            a = self.ev(e.a[0], sc)
            if a is None:
                return None
            if op == 'pos':
                return a
            return Fresh(-a.hi, -a.lo) if isinstance(a, Fresh) else -a
        if op == 'cast':
            a = self.ev(e.a[0], sc)
            if a is None or isinstance(a, Fresh):
                return a
            if e.a[1] in ('text', 'varchar', 'char', 'character'):
                return a if isinstance(a, Term) else str(value_key(a))
            return a
        if op == 'call':
            return self.call(e, sc)
        if op == 'scalar':
            rows = self.query(e.a[0], sc)
            if len(rows) > 1 and self.p.dialect != 'sqlite':
                raise SqlError('subquery returns more than one row', e.src)
            return rows[0][0] if rows else None
        if op == 'exists':
            return bool(self.query(e.a[0], sc))
        if op == 'insel':
            a = self.ev(e.a[0], sc)
            vals = [r[0] for r in self.query(e.a[1], sc)]
            return member(a, vals)
        if op == 'inlist':
            return member(self.ev(e.a[0], sc), [self.ev(x, sc) for x in e.a[1]])
        if op == 'case':
            base, br, other = e.a
            for c, v in br:
                if base is None:
                    hit = t3(self.ev(c, sc)) is True
                else:
                    x, y = self.ev(base, sc), self.ev(c, sc)
                    hit = x is not None and y is not None and equal(x, y)
                if hit:
                    return self.ev(v, sc)
            return self.ev(other, sc) if other is not None else None
        if op == 'like':
            a = self.ev(e.a[1], sc)
            b = self.ev(e.a[2], sc)
            if a is None or b is None:
                return None
            if isinstance(a, str) and isinstance(b, str) and e.a[0] in ('like', 'ilike'):
                ci = e.a[0] == 'ilike' or self.p.dialect != 'postgresql'
                esc = self.ev(e.a[3], sc) if e.a[3] is not None else None if self.p.dialect == 'sqlite' else '\\'
                return like(b, a, ci, esc)
            if isinstance(a, str) and isinstance(b, str) and e.a[0] == 'glob' and not set('[]') & set(b):
                return like(b.replace('%', '\0%').replace('_', '\0_').replace('*', '%').replace('?', '_'), a, False, '\0')
            raise SqlUnknown('LIKE')
        raise SqlUnknown('expression %s' % op)

    def call(self, e, sc):
        f = e.a[0]
        if f in ('random', 'rand'):
            if self.p.dialect == 'sqlite':
                return Fresh(-2.0 ** 63, 2.0 ** 63)
            return Fresh(0.0, 1.0)
        args = [self.ev(x, sc) for x in e.a[1]]
        if f in ('coalesce', 'ifnull'):
            for a in args:
                if a is not None:
                    return a
            return None
        if f == 'nullif':
            if args[0] is not None and args[1] is not None and equal(args[0], args[1]):
                return None
            return args[0]
        if f == 'if':
            return args[1] if t3(args[0]) is True else args[2]
        if args and args[0] is None:
            return None
        if f == 'abs':
            a = args[0]
            if isinstance(a, Fresh):
                return Fresh(0, max(abs(a.lo), abs(a.hi)))
            return abs(a)
        if f in ('floor', 'round', 'trunc', 'truncate'):
            if isinstance(args[0], Fresh):
                return args[0]
            return args[0] // 1
        if f in ('greatest', 'least', 'max', 'min'):
            if any(a is None for a in args):
                return None if self.p.dialect != 'postgresql' else (max if f in ('greatest', 'max') else min)([a for a in args if a is not None])
            return (max if f in ('greatest', 'max') else min)(args)
        if f in ('substr', 'substring') and isinstance(args[0], str) and args[1] >= 1:
            return args[0][args[1] - 1:] if len(args) < 3 else args[0][args[1] - 1:args[1] - 1 + args[2]]
        if f == 'left' and isinstance(args[0], str):
            return args[0][:args[1]]
        if f in ('length', 'char_length') and isinstance(args[0], str):
            return len(args[0])
        if f == 'instr' and isinstance(args[0], str):
            return args[0].find(args[1]) + 1
        if f == 'lower' and isinstance(args[0], str):
            return args[0].lower()
        if f == 'upper' and isinstance(args[0], str):
            return args[0].upper()
        raise SqlUnknown('function %s()' % f)


def is_agg(e):
    if not isinstance(e, N):
        return False
    if e.op == 'call' and e.a[0] in ('count', 'sum', 'total'):
        return True
    if e.op == 'call' and e.a[0] in ('max', 'min') and len(e.a[1]) == 1:
        return True
    if e.op in ('scalar', 'exists', 'insel'):
        return False
    for x in e.a:
        if isinstance(x, N) and is_agg(x):
            return True
        if isinstance(x, list) and any(is_agg(y) for y in x if isinstance(y, N)):
            return True
    return False


def arith(o, a, b):
    a, b = value_key(a), value_key(b)
    if o == '||':
        return str(a) + str(b)
    if isinstance(a, Fresh) or isinstance(b, Fresh):
        la, ha = (a.lo, a.hi) if isinstance(a, Fresh) else (a, a)
        lb, hb = (b.lo, b.hi) if isinstance(b, Fresh) else (b, b)
        if o == '+':
            lo, hi = la + lb, ha + hb
        elif o == '-':
            lo, hi = la - hb, ha - lb
        elif o == '*':
            xs = [x * y for x in (la, ha) for y in (lb, hb)]
            lo, hi = min(xs), max(xs)
        elif o == '/' and not (lb <= 0 <= hb):
            xs = [x / y for x in (la, ha) for y in (lb, hb)]
            lo, hi = min(xs), max(xs)
        elif o == '%' and lb == hb and lb > 0:
            lo, hi = (0 if la >= 0 else -lb), lb
        else:
            raise SqlUnknown('random %s' % o)
        return lo if lo == hi else Fresh(lo, hi)
    if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        raise SqlUnknown('arithmetic on %r and %r' % (a, b))
    if o == '+':
        return a + b
    if o == '-':
        return a - b
    if o == '*':
        return a * b
    if o == '/':
        return a / b if b else None
    if o == '%':
        return a % b if b else None
    raise SqlUnknown('operator %s' % o)


def member(a, vals):
    if a is None:
        return None if vals else False
    if any(v is not None and equal(a, v) for v in vals):
        return True
    if any(v is None for v in vals):
        return None
    return False


def dedup(rows):
    out = []
    for r in rows:
        if r not in out:
            out.append(r)
    return out


def like(pat, s, ci, esc=None):
    import re
    rx = ''
    i = 0
    while i < len(pat):
        c = pat[i]
        if c == esc and i + 1 < len(pat):
            i += 1
            rx += re.escape(pat[i])
        else:
            rx += '.*' if c == '%' else '.' if c == '_' else re.escape(c)
        i += 1
    return re.fullmatch(rx, s, re.S | (re.I if ci else 0)) is not None
