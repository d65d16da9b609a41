"""Parser for generated SQL templates (trigger DDL of the three databases, catalogue queries).

Input is a string value of the analysis: literal text with provenance mixed with symbolic
names.  Output is a small syntax tree; every node keeps the source line that produced the
text it starts at."""
from .values import Term, SStr, Ite, LStr, sparts, term_type, mk_ite
from .values import cat as vcat


class SqlError(Exception):
    """The text is not a statement of the dialect."""
    def __init__(self, msg, src=None):
        Exception.__init__(self, msg)
        self.src = src


class SqlUnknown(Exception):
    """The text uses something the parser does not know."""


class Tok(object):
    __slots__ = ('kind', 'val', 'src', 'at', 'glued')

    def __init__(self, kind, val, src, at):
        self.kind, self.val, self.src, self.at = kind, val, src, at
        self.glued = False

    def __repr__(self):
        return '%s:%r' % (self.kind, self.val)


class N(object):
    """Syntax node."""
    def __init__(self, op, *a, **kw):
        self.op = op
        self.a = a
        self.src = kw.pop('src', None)
        self.__dict__.update(kw)

    def __repr__(self):
        ex = {k: v for k, v in self.__dict__.items() if k not in ('op', 'a', 'src') and v not in (None, (), [])}
        return '%s(%s%s)' % (self.op, ', '.join(map(repr, self.a)), ''.join(', %s=%r' % kv for kv in ex.items()))


def src_at(text, i):
    if isinstance(text, LStr):
        for a, b, s in text.segs:
            if a <= i < b:
                return s
    return None


# ---- alternatives ---------------------------------------------------------------------------

def conditions(v, out=None):
    """Conditions the text depends on."""
    if out is None:
        out = []
    if isinstance(v, Ite):
        if v.c not in out:
            out.append(v.c)
        conditions(v.a, out)
        conditions(v.b, out)
    elif isinstance(v, SStr):
        for p in v.parts:
            conditions(p, out)
    elif isinstance(v, Term):
        for a in v.args:
            if isinstance(a, (Ite, SStr, Term)):
                conditions(a, out)
    elif isinstance(v, tuple):
        for a in v:
            conditions(a, out)
    return out


def choose(v, c, val):
    if isinstance(v, Ite):
        if v.c == c:
            return choose(v.a if val else v.b, c, val)
        return mk_ite(v.c, choose(v.a, c, val), choose(v.b, c, val))
    if isinstance(v, SStr):
        return vcat([choose(p, c, val) for p in v.parts])
    if isinstance(v, Term):
        if any(isinstance(a, (Ite, SStr, Term)) for a in v.args):
            return Term(v.op, *[choose(a, c, val) if isinstance(a, (Ite, SStr, Term)) else a for a in v.args])
        return v
    if isinstance(v, tuple):
        return tuple(choose(a, c, val) for a in v)
    return v


def alternatives(v, limit=64):
    """All texts the value may be: list of (assignment, text)."""
    todo = [((), v)]
    out = []
    while todo:
        asg, x = todo.pop()
        cs = [c for c in conditions(x) if not isinstance(c, bool)]
        cs = [c for c in cs if depends(x, c)]
        if not cs:
            out.append((asg, x))
        else:
            c = cs[0]
            todo.append((asg + ((c, False),), choose(x, c, False)))
            todo.append((asg + ((c, True),), choose(x, c, True)))
        if len(todo) + len(out) > limit:
            raise SqlUnknown('statement text has too many alternatives')
    return out


def depends(v, c):
    if isinstance(v, Ite):
        return v.c == c or depends(v.a, c) or depends(v.b, c)
    if isinstance(v, SStr):
        return any(depends(p, c) for p in v.parts)
    if isinstance(v, Term):
        return any(depends(a, c) for a in v.args if isinstance(a, (Ite, SStr, Term)))
    if isinstance(v, tuple):
        return any(depends(a, c) for a in v)
    return False


# ---- tokens -----------------------------------------------------------------------------------

OPS = ['<=>', '::', '<=', '>=', '<>', '!=', '==', '||', '$$', ':=', '(', ')', ',', ';', '.', '=', '<', '>', '+', '-', '*', '/', '%', '@']
WORD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$')


def numeric(t):
    if t.op == 'str' and isinstance(t.args[0], Term):
        return numeric(t.args[0]) or term_type(t.args[0]) == 'int'
    return t.op == 'ct'


def tokenise(v, dialect, params=True):
    """params: the text goes through %-formatting (placeholders, doubled percent signs)."""
    items = []              # (char or Term, src)
    for p in sparts(v):
        if isinstance(p, str):
            for i, ch in enumerate(p):
                items.append((ch, p, i))
        elif isinstance(p, (Term,)):
            items.append((p, None, 0))
        elif isinstance(p, SStr):
            raise SqlUnknown('nested text')
        else:
            raise SqlUnknown('text part %r' % (p,))
    toks = []
    n = len(items)
    i = 0
    last_src = None

    def ch(k):
        return items[k][0] if k < n and isinstance(items[k][0], str) else None

    def word(k):
        if k >= n:
            return False
        x = items[k][0]
        return (x in WORD) if isinstance(x, str) else x.op != 'qn'
    nparam = 0
    while i < n:
        x, txt, off = items[i]
        src = src_at(txt, off) if txt is not None else None
        if src is not None:
            last_src = src
        src = src or last_src
        start = i
        if isinstance(x, Term):
            if x.op == 'qn':
                t = Tok('qid', x, src, i)
                toks.append(t)
                i += 1
                t.glued = word(i) or (start > 0 and word(start - 1))
                continue
        elif x.isspace():
            i += 1
            continue
        elif x == '-' and ch(i + 1) == '-':
            while i < n and ch(i) != '\n':
                i += 1
            continue
        elif x == '#' and dialect == 'mysql':
            while i < n and ch(i) != '\n':
                i += 1
            continue
        elif x == '/' and ch(i + 1) == '*':
            i += 2
            while i < n and not (ch(i) == '*' and ch(i + 1) == '/'):
                i += 1
            i += 2
            continue
        elif x == '$' and ch(i + 1) == '$':
            toks.append(Tok('op', '$$', src, i))
            i += 2
            continue
        elif x == '$' and dialect == 'postgresql':
            j = i + 1
            while j < n and (ch(j) in WORD if ch(j) else False) and ch(j) != '$':
                j += 1
            if ch(j) == '$':
                toks.append(Tok('op', '$$', src, i))
                i = j + 1
                continue
        elif x == "'" or x == '"' or x == '`':
            q = x
            if q == '`' and dialect == 'postgresql':
                raise SqlError('names are not quoted with ` on PostgreSQL', src)
            i += 1
            parts = []
            while True:
                if i >= n:
                    raise SqlError('unterminated %s' % q, src)
                c = items[i][0]
                if c == q:
                    if ch(i + 1) == q:
                        parts.append(q)
                        i += 2
                        continue
                    i += 1
                    break
                if c == '%' and params and ch(i + 1) == '%':
                    parts.append('%')
                    i += 2
                    continue
                parts.append(c)
                i += 1
            val = vcat(parts)
            if q == "'" or (q == '"' and dialect == 'mysql'):
                toks.append(Tok('str', val, src, start))
            else:
                toks.append(Tok('qid', Term('qn', None, val), src, start))
            continue
        elif x == '%' and params:
            if ch(i + 1) == 's':
                toks.append(Tok('param', nparam, src, i))
                nparam += 1
                i += 2
                continue
            if ch(i + 1) == '%':
                toks.append(Tok('op', '%', src, i))
                i += 2
                continue
            raise SqlError('stray %% in a statement that is formatted with parameters', src)
        elif x.isdigit():
            j = i
            while j < n and ch(j) is not None and (ch(j).isdigit() or (ch(j) == '.' and j + 1 < n and (ch(j + 1) or ' ').isdigit())):
                j += 1
            if not word(j):
                s = ''.join(items[k][0] for k in range(i, j))
                toks.append(Tok('num', float(s) if '.' in s else int(s), src, i))
                i = j
                continue
        elif x == '?':
            raise SqlUnknown('qmark placeholder')
        if word(i):
            j = i
            parts = []
            while word(j):
                parts.append(items[j][0])
                j += 1
            if len(parts) == 1 and isinstance(parts[0], Term) and numeric(parts[0]):
                toks.append(Tok('num', parts[0], src, i))
            else:
                val = vcat(parts)
                toks.append(Tok('id', val, src, i))
            i = j
            continue
        for o in OPS:
            if all(ch(i + k) == o[k] for k in range(len(o))):
                toks.append(Tok('op', o, src, i))
                i += len(o)
                break
        else:
            raise SqlUnknown('character %r' % (x,))
    toks.append(Tok('end', None, last_src, n))
    return toks, nparam


# ---- parser --------------------------------------------------------------------------------------

RESERVED = set('''select from where and or not in is null exists case when then else end set values into insert update delete
create trigger on for each row begin if elsif elseif distinct union order group by having limit as exception return begin
between like join left inner outer'''.split())


class Parser(object):
    def __init__(self, toks, dialect):
        self.t = toks
        self.i = 0
        self.d = dialect

    @property
    def tok(self):
        return self.t[self.i]

    def src(self):
        return self.tok.src

    def kw(self, *words):
        """Is the next token one of these keywords?"""
        t = self.tok
        return t.kind == 'id' and isinstance(t.val, str) and t.val.lower() in words

    def kws(self, *seq):
        for k, w in enumerate(seq):
            if self.i + k >= len(self.t):
                return False
            t = self.t[self.i + k]
            if not (t.kind == 'id' and isinstance(t.val, str) and t.val.lower() == w):
                return False
        return True

    def take_kw(self, *words):
        if self.kw(*words):
            self.i += 1
            return True
        return False

    def need_kw(self, w):
        if not self.take_kw(w):
            self.fail("expected '%s'" % w.upper())

    def op(self, *ops):
        return self.tok.kind == 'op' and self.tok.val in ops

    def take(self, o):
        if self.op(o):
            self.i += 1
            return True
        return False

    def need(self, o):
        if not self.take(o):
            self.fail("expected '%s'" % o)

    def describe(self):
        t = self.tok
        if t.kind == 'end':
            return 'end of statement'
        return "'%s'" % show_text(t.val)

    def fail(self, msg):
        raise SqlError('%s at %s' % (msg, self.describe()), self.src())

    def name(self):
        """One identifier: N('name', value, quoted alias or None)"""
        t = self.tok
        if t.kind == 'qid':
            if t.glued:
                raise SqlError('quoted name glued to other text', t.src)
            self.i += 1
            return N('name', t.val.args[1], src=t.src, quoted=True, alias=t.val.args[0])
        if t.kind == 'id':
            if isinstance(t.val, str) and t.val.lower() in RESERVED:
                self.fail('expected a name')
            self.i += 1
            return N('name', t.val, src=t.src, quoted=False, alias=None)
        self.fail('expected a name')

    def qname(self):
        a = self.name()
        if self.op('.'):
            self.i += 1
            b = self.name()
            return N('dotted', a, b, src=a.src)
        return a

    # -- top level

    def script(self):
        out = []
        while self.tok.kind != 'end':
            if self.take(';'):
                continue
            out.append(self.statement())
            if self.tok.kind != 'end':
                if not self.op(';'):
                    self.fail('statement continues unexpectedly')
                self.i += 1
        return out

    def statement(self):
        s = self.src()
        if self.kw('create'):
            self.i += 1
            orr = False
            if self.kws('or', 'replace'):
                self.i += 2
                orr = True
            self.take_kw('temp')
            self.take_kw('temporary')
            if self.take_kw('function'):
                return self.create_function(s, orr)
            if self.take_kw('trigger'):
                return self.create_trigger(s, orr)
            if self.kw('language', 'trusted', 'extension'):
                while self.tok.kind != 'end' and not self.op(';'):
                    self.i += 1
                return N('create_language', src=s)
            if self.take_kw('constraint'):
                raise SqlUnknown('constraint trigger')
            raise SqlUnknown('CREATE %s' % self.describe())
        if self.take_kw('drop'):
            if self.tok.kind != 'id' or not isinstance(self.tok.val, str):
                self.fail('expected the kind of object to drop')
            kind = self.tok.val.lower()
            self.i += 1
            exists = False
            if self.kws('if', 'exists'):
                self.i += 2
                exists = True
            nm = self.name()
            args = False
            if self.take('('):
                self.need(')')
            on = None
            if self.take_kw('on'):
                on = self.qname()
            cascade = bool(self.take_kw('cascade'))
            if not cascade:
                self.take_kw('restrict')
            return N('drop', kind, nm, on, src=s, exists=exists, cascade=cascade)
        if self.take_kw('show'):
            what = self.tok.val.lower() if self.tok.kind == 'id' and isinstance(self.tok.val, str) else '?'
            self.i += 1
            pat = where = None
            if self.take_kw('like'):
                pat = self.expr()
            elif self.take_kw('where'):
                where = self.expr()
            if self.tok.kind != 'end' and not self.op(';'):
                raise SqlUnknown('SHOW %s' % what)
            return N('show', what, pat, where, src=s)
        if self.kw('select', 'with'):
            return self.select()
        if self.kw('insert', 'update', 'delete', 'replace'):
            return self.body_statement()
        if self.kw('lock', 'set', 'comment', 'alter', 'grant', 'begin', 'commit'):
            raise SqlUnknown('statement %s' % self.describe())
        self.fail('unknown statement')

    def create_function(self, s, orr):
        nm = self.name()
        self.need('(')
        self.need(')')
        self.need_kw('returns')
        self.need_kw('trigger')
        lang = None
        body = None
        while True:
            if self.take_kw('language'):
                lang = self.name()
            elif self.take_kw('as'):
                self.need('$$')
                body = self.plpgsql()
                self.need('$$')
            elif self.kw('volatile', 'stable', 'immutable', 'security', 'definer', 'invoker'):
                self.i += 1
            else:
                break
        return N('function', nm, body, src=s, replace=orr, lang=lang)

    def plpgsql(self):
        if self.take_kw('declare'):
            raise SqlUnknown('DECLARE')
        self.need_kw('begin')
        b = self.block('end')
        self.need_kw('end')
        self.take(';')
        return b

    def create_trigger(self, s, orr):
        ifne = False
        if self.kws('if', 'not', 'exists'):
            self.i += 3
            ifne = True
        nm = self.name()
        time = None
        if self.kw('before', 'after', 'instead'):
            time = self.tok.val.lower()
            self.i += 1
            if time == 'instead':
                self.need_kw('of')
        elif self.d != 'sqlite':
            self.fail('expected BEFORE or AFTER')
        events = []
        cols = None
        while True:
            if not self.kw('insert', 'update', 'delete'):
                self.fail('expected INSERT, UPDATE or DELETE')
            events.append(self.tok.val.lower())
            self.i += 1
            if self.kw('of'):
                self.i += 1
                cols = [self.name()]
                while self.take(','):
                    cols.append(self.name())
            if self.d == 'postgresql' and self.take_kw('or'):
                continue
            break
        self.need_kw('on')
        table = self.qname()
        each = False
        if self.kws('for', 'each', 'row'):
            self.i += 3
            each = True
        elif self.kws('for', 'each', 'statement'):
            self.i += 3
        if self.d == 'mysql' and not each:
            self.fail('expected FOR EACH ROW')
        when = None
        if self.kw('when'):
            self.i += 1
            if self.d == 'postgresql' and not self.op('('):
                self.fail("expected '('")
            when = self.expr()
        func = None
        body = None
        if self.d == 'postgresql':
            self.need_kw('execute')
            if not (self.take_kw('procedure') or self.take_kw('function')):
                self.fail('expected PROCEDURE')
            func = self.name()
            self.need('(')
            self.need(')')
        elif self.take_kw('begin'):
            body = self.block('end')
            self.need_kw('end')
        elif self.d == 'mysql':
            body = [self.body_statement()]
        else:
            self.fail('expected BEGIN')
        return N('trigger', nm, src=s, time=time, events=events, of=cols, table=table, each=each or self.d == 'sqlite', when=when,
                 func=func, body=body, ifne=ifne, replace=orr)

    # -- trigger bodies

    def block(self, *ends):
        out = []
        while not self.kw(*ends):
            if self.tok.kind == 'end':
                self.fail('body is not closed')
            if self.op(';') and self.d == 'postgresql':
                self.i += 1
                continue
            out.append(self.body_statement())
            self.need(';')
        return out

    def body_statement(self):
        s = self.src()
        if self.kw('insert', 'replace'):
            return self.insert()
        if self.kw('update'):
            return self.update()
        if self.kw('delete'):
            self.i += 1
            self.need_kw('from')
            t = self.qname()
            w = None
            if self.take_kw('where'):
                w = self.expr()
            return N('delete', t, w, src=s)
        if self.kw('if') and self.d != 'sqlite':
            self.i += 1
            branches = []
            c = self.expr()
            self.need_kw('then')
            branches.append((c, self.block('elsif', 'elseif', 'else', 'end')))
            other = None
            while True:
                if self.kw('elsif', 'elseif'):
                    self.i += 1
                    c = self.expr()
                    self.need_kw('then')
                    branches.append((c, self.block('elsif', 'elseif', 'else', 'end')))
                elif self.take_kw('else'):
                    other = self.block('end')
                else:
                    break
            self.need_kw('end')
            self.need_kw('if')
            return N('if', branches, other, src=s)
        if self.kw('begin') and self.d != 'sqlite':
            self.i += 1
            b = self.block('end', 'exception')
            handlers = []
            if self.d == 'postgresql' and self.take_kw('exception'):
                while self.take_kw('when'):
                    nm = [self.name()]
                    while self.take_kw('or'):
                        nm.append(self.name())
                    self.need_kw('then')
                    handlers.append((nm, self.block('when', 'end')))
            self.need_kw('end')
            return N('block', b, handlers, src=s)
        if self.kw('return') and self.d == 'postgresql':
            self.i += 1
            e = self.expr()
            return N('return', e, src=s)
        if self.kw('null') and self.d == 'postgresql':
            self.i += 1
            return N('nop', src=s)
        if self.kw('perform') and self.d == 'postgresql':
            raise SqlUnknown('PERFORM')
        if self.kw('select'):
            return self.select()
        if self.tok.kind == 'id' and isinstance(self.tok.val, str) and self.tok.val.lower() in ('declare', 'call', 'set', 'for', 'while', 'loop', 'with', 'signal', 'raise', 'execute'):
            raise SqlUnknown('statement %s' % self.describe())
        self.fail('expected a statement')

    def insert(self):
        s = self.src()
        mode = None
        if self.take_kw('replace'):
            mode = 'replace'
        else:
            self.need_kw('insert')
            if self.d == 'sqlite' and self.take_kw('or'):
                mode = self.tok.val.lower() if self.kw('replace', 'ignore', 'abort', 'fail', 'rollback') else self.fail('expected a conflict clause')
                self.i += 1
            elif self.d == 'mysql' and self.take_kw('ignore'):
                mode = 'ignore'
        self.need_kw('into')
        t = self.qname()
        cols = None
        if self.op('(') and not self.select_ahead():
            self.need('(')
            cols = [self.name()]
            while self.take(','):
                cols.append(self.name())
            self.need(')')
        if self.take_kw('values'):
            rows = []
            while True:
                self.need('(')
                row = [self.expr()]
                while self.take(','):
                    row.append(self.expr())
                self.need(')')
                rows.append(row)
                if not self.take(','):
                    break
            src = N('values', rows)
        elif self.kw('select', 'with'):
            src = self.select()
        elif self.op('('):
            src = self.paren_select()
        else:
            self.fail('expected VALUES or SELECT')
        conflict = None
        if self.kws('on', 'conflict'):
            self.i += 2
            if self.take('('):
                self.name()
                while self.take(','):
                    self.name()
                self.need(')')
            self.need_kw('do')
            if self.take_kw('nothing'):
                conflict = 'nothing'
            else:
                raise SqlUnknown('ON CONFLICT DO UPDATE')
        elif self.kws('on', 'duplicate'):
            raise SqlUnknown('ON DUPLICATE KEY')
        return N('insert', t, cols, src, src=s, mode=mode or conflict)

    def select_ahead(self):
        k = self.i
        while self.t[k].kind == 'op' and self.t[k].val == '(':
            k += 1
        t = self.t[k]
        return t.kind == 'id' and isinstance(t.val, str) and t.val.lower() in ('select', 'with')

    def update(self):
        s = self.src()
        self.need_kw('update')
        if self.d == 'sqlite' and self.take_kw('or'):
            self.i += 1
        t = self.qname()
        self.need_kw('set')
        sets = []
        while True:
            c = self.qname()
            if c.op == 'dotted':
                c = c.a[1]
            self.need('=')
            sets.append((c, self.expr()))
            if not self.take(','):
                break
        if self.kw('from'):
            raise SqlUnknown('UPDATE FROM')
        w = None
        if self.take_kw('where'):
            w = self.expr()
        return N('update', t, sets, w, src=s)

    # -- queries

    def paren_select(self):
        self.need('(')
        q = self.paren_select() if self.op('(') else self.select()
        self.need(')')
        return q

    def select(self):
        q = self.select_core()
        while self.kw('union'):
            self.i += 1
            all_ = self.take_kw('all')
            r = self.paren_select() if self.op('(') else self.select_core()
            q = N('union', q, r, src=q.src, all=all_)
        return q

    def select_core(self):
        s = self.src()
        if self.kw('with'):
            raise SqlUnknown('WITH')
        self.need_kw('select')
        distinct = self.take_kw('distinct')
        self.take_kw('all')
        items = []
        while True:
            if self.take('*'):
                items.append(N('star'))
            else:
                e = self.expr()
                if self.take_kw('as'):
                    self.name()
                elif self.tok.kind in ('id', 'qid') and not self.kw('from', 'where', 'union', 'order', 'group', 'limit'):
                    self.name()
                items.append(e)
            if not self.take(','):
                break
        frm = []
        w = None
        if self.take_kw('from'):
            frm.append(self.from_item())
            while True:
                if self.take(','):
                    frm.append(self.from_item())
                elif self.kw('join', 'inner', 'left', 'cross'):
                    kind = 'inner'
                    if self.take_kw('left'):
                        self.take_kw('outer')
                        kind = 'left'
                    else:
                        self.take_kw('inner') or self.take_kw('cross')
                    self.need_kw('join')
                    f = self.from_item()
                    f.join = kind
                    f.on = None
                    if self.take_kw('on'):
                        f.on = self.expr()
                    frm.append(f)
                else:
                    break
        if self.take_kw('where'):
            w = self.expr()
        if self.kw('group', 'having'):
            raise SqlUnknown('GROUP BY')
        if self.kws('order', 'by'):
            self.i += 2
            self.expr()
            self.take_kw('asc') or self.take_kw('desc')
            while self.take(','):
                self.expr()
                self.take_kw('asc') or self.take_kw('desc')
        if self.kw('limit'):
            self.i += 1
            return N('select', items, frm, w, src=s, distinct=distinct, limit=self.expr())
        if self.kws('for', 'update'):
            self.i += 2
        return N('select', items, frm, w, src=s, distinct=distinct, limit=None)

    def from_item(self):
        if self.op('('):
            raise SqlUnknown('subquery in FROM')
        t = self.qname()
        alias = None
        if self.take_kw('as'):
            alias = self.name()
        elif self.tok.kind in ('id', 'qid') and not self.kw('where', 'join', 'inner', 'left', 'cross', 'on', 'union', 'order', 'group', 'limit', 'for', 'having', 'set'):
            alias = self.name()
        return N('from', t, alias, src=t.src, join='inner', on=None)

    # -- expressions

    def expr(self):
        e = self.and_()
        while self.kw('or') or (self.op('||') and self.d == 'mysql'):
            s = self.src()
            self.i += 1
            e = N('or', e, self.and_(), src=s)
        return e

    def and_(self):
        e = self.not_()
        while self.kw('and'):
            s = self.src()
            self.i += 1
            e = N('and', e, self.not_(), src=s)
        return e

    def not_(self):
        if self.kw('not'):
            s = self.src()
            self.i += 1
            return N('not', self.not_(), src=s)
        return self.cmp()

    def cmp(self):
        e = self.add()
        while True:
            s = self.src()
            if self.op('=', '==', '<>', '!=', '<', '>', '<=', '>=', '<=>'):
                o = self.tok.val
                if o == '==' and self.d != 'sqlite':
                    self.fail("operator '==' does not exist")
                if o == '<=>' and self.d != 'mysql':
                    self.fail("operator '<=>' does not exist")
                self.i += 1
                o = {'==': '=', '!=': '<>'}.get(o, o)
                if self.kw('any', 'all', 'some'):
                    raise SqlUnknown('quantified comparison')
                e = N('cmp', o, e, self.add(), src=s)
            elif self.kw('is', 'isnull', 'notnull'):
                if self.take_kw('isnull'):
                    e = N('isnull', e, src=s)
                    continue
                if self.take_kw('notnull'):
                    e = N('not', N('isnull', e), src=s)
                    continue
                self.i += 1
                neg = self.take_kw('not')
                if self.kws('distinct', 'from'):
                    if self.d == 'mysql':
                        self.fail('IS DISTINCT FROM does not exist')
                    self.i += 2
                    r = N('cmp', '<=>', e, self.add(), src=s)
                    e = r if neg else N('not', r, src=s)
                    continue
                if self.kw('null'):
                    self.i += 1
                    r = N('isnull', e, src=s)
                elif self.kw('true', 'false', 'unknown') and self.d != 'sqlite':
                    v = self.tok.val.lower()
                    self.i += 1
                    r = N('istrue', e, v, src=s)
                elif self.d == 'sqlite':
                    r = N('cmp', '<=>', e, self.add(), src=s)
                else:
                    self.fail('IS needs NULL or a truth value')
                e = N('not', r, src=s) if neg else r
            elif self.kw('in') or self.kws('not', 'in'):
                neg = self.take_kw('not')
                self.need_kw('in')
                if self.op('(') and self.select_ahead():
                    r = N('insel', e, self.paren_select(), src=s)
                else:
                    self.need('(')
                    items = []
                    if not self.op(')'):
                        items.append(self.expr())
                        while self.take(','):
                            items.append(self.expr())
                    self.need(')')
                    r = N('inlist', e, items, src=s)
                e = N('not', r, src=s) if neg else r
            elif self.kw('like', 'ilike', 'glob', 'regexp', 'rlike') or (self.kw('not') and self.i + 1 < len(self.t) and self.t[self.i + 1].kind == 'id' and
                                                                           isinstance(self.t[self.i + 1].val, str) and self.t[self.i + 1].val.lower() in ('like', 'ilike', 'between', 'glob', 'regexp')):
                neg = self.take_kw('not')
                if self.take_kw('between'):
                    a = self.add()
                    self.need_kw('and')
                    b = self.add()
                    r = N('and', N('cmp', '>=', e, a), N('cmp', '<=', e, b), src=s)
                else:
                    kind = self.tok.val.lower()
                    self.i += 1
                    pat = self.add()
                    esc = None
                    if self.take_kw('escape'):
                        esc = self.add()
                    r = N('like', kind, e, pat, esc, src=s)
                e = N('not', r, src=s) if neg else r
            elif self.kw('between'):
                self.i += 1
                a = self.add()
                self.need_kw('and')
                b = self.add()
                e = N('and', N('cmp', '>=', e, a), N('cmp', '<=', e, b), src=s)
            elif self.op('~') or self.kw('collate'):
                raise SqlUnknown('operator %s' % self.describe())
            else:
                return e

    def add(self):
        e = self.mul()
        while self.op('+', '-') or (self.op('||') and self.d != 'mysql'):
            s = self.src()
            o = self.tok.val
            self.i += 1
            e = N('bin', o, e, self.mul(), src=s)
        return e

    def mul(self):
        e = self.unary()
        while self.op('*', '/', '%'):
            s = self.src()
            o = self.tok.val
            self.i += 1
            e = N('bin', o, e, self.unary(), src=s)
        return e

    def unary(self):
        if self.op('-', '+'):
            s = self.src()
            o = self.tok.val
            self.i += 1
            return N('neg' if o == '-' else 'pos', self.unary(), src=s)
        e = self.primary()
        while self.op('::'):
            if self.d != 'postgresql':
                self.fail("operator '::' does not exist")
            self.i += 1
            t = self.type_name()
            e = N('cast', e, t, src=e.src)
        return e

    def type_name(self):
        t = self.name()
        v = t.a[0]
        if self.take('('):
            while not self.take(')'):
                self.i += 1
                if self.tok.kind == 'end':
                    self.fail("expected ')'")
        if self.kws('precision') or self.kws('varying'):
            self.i += 1
        return v.lower() if isinstance(v, str) else v

    def primary(self):
        t = self.tok
        s = t.src
        if t.kind == 'num':
            self.i += 1
            return N('num', t.val, src=s)
        if t.kind == 'str':
            self.i += 1
            return N('str', t.val, src=s)
        if t.kind == 'param':
            self.i += 1
            return N('param', t.val, src=s)
        if self.op('('):
            if self.select_ahead():
                return N('scalar', self.paren_select(), src=s)
            self.i += 1
            e = self.expr()
            if self.op(','):
                raise SqlUnknown('row value')
            self.need(')')
            return N('paren', e, src=s)
        if self.kw('null'):
            self.i += 1
            return N('null', src=s)
        if self.kw('true', 'false'):
            v = t.val.lower() == 'true'
            self.i += 1
            return N('bool', v, src=s)
        if self.kw('exists'):
            self.i += 1
            return N('exists', self.paren_select(), src=s)
        if self.kw('case'):
            self.i += 1
            base = None
            if not self.kw('when'):
                base = self.expr()
            br = []
            while self.take_kw('when'):
                c = self.expr()
                self.need_kw('then')
                br.append((c, self.expr()))
            other = None
            if self.take_kw('else'):
                other = self.expr()
            self.need_kw('end')
            return N('case', base, br, other, src=s)
        if self.kw('cast') and self.t[self.i + 1].kind == 'op' and self.t[self.i + 1].val == '(':
            self.i += 2
            e = self.expr()
            self.need_kw('as')
            ty = self.type_name()
            self.need(')')
            return N('cast', e, ty, src=s)
        if t.kind in ('id', 'qid'):
            nm = self.name()
            if self.op('(') and not nm.quoted:
                self.i += 1
                args = []
                distinct = False
                if self.take('*'):
                    args.append(N('star'))
                elif not self.op(')'):
                    distinct = self.take_kw('distinct')
                    args.append(self.expr())
                    while self.take(','):
                        args.append(self.expr())
                self.need(')')
                return N('call', nm.a[0].lower() if isinstance(nm.a[0], str) else nm.a[0], args, src=s, distinct=distinct)
            if self.op('.'):
                self.i += 1
                if self.take('*'):
                    return N('star', src=s)
                return N('col', nm, self.name(), src=s)
            return N('col', None, nm, src=s)
        self.fail('expected an expression')


def parse(v, dialect, params=True):
    toks, n = tokenise(v, dialect, params)
    p = Parser(toks, dialect)
    return p.script(), n, toks


def show_text(v):
    """Readable form of a string value."""
    out = []
    for p in sparts(v):
        if isinstance(p, str):
            out.append(str(p))
        elif isinstance(p, Term) and p.op == 'qn':
            out.append('"%s"' % show_text(p.args[1]))
        elif isinstance(p, Term) and p.op in ('tbl', 'col', 'ct'):
            out.append('{%s}' % p.args[0])
        elif isinstance(p, Term) and p.op == 'str':
            out.append(show_text(p.args[0]))
        else:
            out.append('{%r}' % (p,))
    return ''.join(out)
