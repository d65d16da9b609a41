"""Built-in types and functions for the abstract interpreter."""
import string as _string

from .values import *  # noqa
from .interp import Unsupported, Dead, is_const, Interp, State, add_fact

EXC = [
    ('BaseException', 'object'), ('Exception', 'BaseException'), ('SystemExit', 'BaseException'),
    ('KeyboardInterrupt', 'BaseException'), ('GeneratorExit', 'BaseException'),
    ('ArithmeticError', 'Exception'), ('ZeroDivisionError', 'ArithmeticError'), ('OverflowError', 'ArithmeticError'),
    ('AssertionError', 'Exception'), ('AttributeError', 'Exception'), ('EOFError', 'Exception'),
    ('ImportError', 'Exception'), ('ModuleNotFoundError', 'ImportError'), ('LookupError', 'Exception'),
    ('IndexError', 'LookupError'), ('KeyError', 'LookupError'), ('NameError', 'Exception'),
    ('UnboundLocalError', 'NameError'), ('OSError', 'Exception'), ('FileNotFoundError', 'OSError'),
    ('PermissionError', 'OSError'), ('ProcessLookupError', 'OSError'), ('FileExistsError', 'OSError'),
    ('InterruptedError', 'OSError'), ('RuntimeError', 'Exception'),
    ('NotImplementedError', 'RuntimeError'), ('RecursionError', 'RuntimeError'), ('StopIteration', 'Exception'),
    ('SyntaxError', 'Exception'), ('SystemError', 'Exception'), ('TypeError', 'Exception'),
    ('ValueError', 'Exception'), ('UnicodeError', 'ValueError'), ('UnicodeDecodeError', 'UnicodeError'),
    ('UnicodeEncodeError', 'UnicodeError'), ('Warning', 'Exception'), ('DeprecationWarning', 'Warning'),
    ('PendingDeprecationWarning', 'Warning'), ('UserWarning', 'Warning'), ('RuntimeWarning', 'Warning'), ('FutureWarning', 'Warning'),
]

ERRNO_SUB = {'FileNotFoundError': 2, 'PermissionError': 13, 'ProcessLookupError': 3, 'FileExistsError': 17, 'InterruptedError': 4}

_CACHE = {}


def meth(kind, name, fn):
    k = (kind, name)
    b = _CACHE.get(k)
    if b is None:
        b = _CACHE[k] = Builtin('%s.%s' % (kind, name), fn)
    return b


def boot(it):
    it.modinfo = {}
    it.frame_module = {}
    it.first_arg = {}
    N = it.natives

    def cls(name, base, native):
        bases = (N[base],) if base else ()
        ref = it.alloc(None)
        mro = (ref,) + (it.get(bases[0]).mro if bases else ())
        it.set(ref, OClass(name, bases, mro, {}, None, 'builtins', native))
        N[name] = ref
    cls('object', None, 'object')
    cls('type', 'object', 'plaintype')
    for n in ('NoneType', 'int', 'float', 'str', 'bytes', 'tuple', 'list', 'dict', 'set', 'frozenset', 'function', 'module',
              'generator', 'iterator', 'method', 'builtin_function', 'property', 'classmethod', 'staticmethod', 'super',
              'complex', 'bytearray', 'slice', 'range'):
        cls(n, 'object', n)
    cls('bool', 'int', 'bool')
    for n, b in EXC:
        cls(n, b, 'exception')
    N['IOError'] = N['OSError']
    N['EnvironmentError'] = N['OSError']
    B = it.builtins = {}
    for n, f in FUNCS.items():
        B[n] = Builtin(n, f)
    B['NotImplemented'] = sym('NotImplemented', 'obj')
    B['Ellipsis'] = sym('Ellipsis', 'obj')
    B['__debug__'] = True
    for n in ('NoneType', 'function', 'module', 'generator', 'iterator', 'method', 'builtin_function'):
        B[n] = ABSENT
    # module __vp__ for the models of the framework
    attrs = {'__name__': '__vp__'}
    for n, f in VP.items():
        attrs[n] = Builtin('__vp__.' + n, f)
    it.modules['__vp__'] = it.alloc(OModule('__vp__', attrs))


# ---- strings ---------------------------------------------------------------------------

def to_str(it, v):
    v = it.resolve(v)
    if isinstance(v, Ite):
        if pure_str(it, v):
            return mk_ite(v.c, to_str(it, v.a), to_str(it, v.b))
        return it.case(v, lambda u: to_str(it, u))
    if isinstance(v, (str, SStr)):
        return v
    if v is None or isinstance(v, (bool, int, float)):
        return str(v)
    if isinstance(v, bytes):
        return repr(v)
    if isinstance(v, Term):
        return v if term_type(v) == 'str' else Term('str', v)
    if isinstance(v, Ref):
        r = it.get(v)
        if isinstance(r, OInst):
            for nm in ('__str__', '__repr__'):
                f = it.class_lookup(r.cls, nm)
                if f is not None:
                    return it.call(it.bind(f[0], v, r.cls), [], {})
            if '__payload__' in r.attrs:
                return to_str(it, r.attrs['__payload__'])
            c = it.resolve(r.cls)
            if isinstance(c, Ref) and it.get(c).native == 'exception':
                a = it.resolve(r.attrs.get('args', ()))
                if isinstance(a, tuple):
                    if not a:
                        return ''
                    if len(a) == 1:
                        return to_str(it, a[0])
    return to_repr(it, v)


def pure_str(it, v):
    if isinstance(v, Ite):
        return pure_str(it, v.a) and pure_str(it, v.b)
    return not isinstance(v, Ref)


def to_repr(it, v):
    v = it.resolve(v)
    if isinstance(v, Ite):
        return it.case(v, lambda u: to_repr(it, u))
    if v is None or isinstance(v, (bool, int, float, bytes)):
        return repr(v)
    if isinstance(v, str):
        return repr(str(v))
    if isinstance(v, tuple):
        parts = ['(']
        for i, x in enumerate(v):
            if i:
                parts.append(', ')
            parts.append(to_repr(it, x))
        parts.append(',)' if len(v) == 1 else ')')
        return cat(parts)
    if isinstance(v, Ref):
        r = it.get(v)
        if isinstance(r, OInst):
            f = it.class_lookup(r.cls, '__repr__')
            if f is not None:
                return it.call(it.bind(f[0], v, r.cls), [], {})
            if '__payload__' in r.attrs:
                return to_repr(it, r.attrs['__payload__'])
        if isinstance(r, OClass):
            if r.meta is not None:
                f = it.class_lookup(r.meta, '__repr__')
                if f is not None:
                    return it.call(it.bind(f[0], v, r.meta), [], {})
            m = r.attrs.get('__module__', r.module)
            return "<class '%s%s'>" % ('' if m == 'builtins' else '%s.' % m, r.name)
        if isinstance(r, OList) and not any(isinstance(x, (SegOpt, SegFor)) for x in r.items):
            parts = ['[']
            for i, x in enumerate(r.items):
                if i:
                    parts.append(', ')
                parts.append(to_repr(it, x))
            parts.append(']')
            return cat(parts)
    return Term('repr', it.freeze(v))


def format_value(it, v, spec):
    spec = it.resolve(spec)
    if spec == '' or spec is None:
        return to_str(it, v)
    v = it.resolve(v)
    if isinstance(v, Ite):
        return it.case(v, lambda u: format_value(it, u, spec))
    if is_const(v) and isinstance(spec, str):
        try:
            return format(v, str(spec))
        except (ValueError, TypeError):
            it.throw('ValueError', 'bad format')
    if isinstance(spec, str) and spec in ('s', 'd'):
        return to_str(it, v)
    return Term('strop', 'format', it.freeze(v), spec)


def percent(it, fmt, arg):
    """fmt % arg"""
    arg = it.resolve(arg)
    out = []
    pos = [0]
    mapping = None
    if isinstance(arg, tuple):
        seq = list(arg)
    else:
        r = it.rec(arg)
        if isinstance(r, ODict) or (isinstance(r, OInst) and '__payload__' in r.attrs) or isinstance(arg, DictView):
            mapping = arg
        if isinstance(arg, Ite):
            return it.case(arg, lambda u: percent(it, fmt, u))
        seq = [arg]
    used_map = [False]

    def nextarg():
        if pos[0] >= len(seq):
            it.throw('TypeError', 'not enough arguments for format string')
        v = seq[pos[0]]
        pos[0] += 1
        return v

    for part in sparts(fmt):
        if not isinstance(part, str):
            if isinstance(part, Ite):
                raise Unsupported('format string with alternatives')
            out.append(part)
            continue
        i = 0
        n = len(part)
        start = 0
        while i < n:
            if part[i] != '%':
                i += 1
                continue
            if i > start:
                out.append(lslice(part, start, i))
            j = i + 1
            if j >= n:
                it.throw('ValueError', 'incomplete format')
            key = None
            if part[j] == '(':
                k = part.index(')', j)
                key = str(part)[j + 1:k]
                j = k + 1
            spec = ''
            while j < n and part[j] in '#0- +123456789.':
                spec += part[j]
                j += 1
            if j >= n:
                it.throw('ValueError', 'incomplete format')
            conv = part[j]
            if conv == '%':
                out.append(lslice(part, j, j + 1))
            else:
                if conv not in 'srdiuxXeEfFgGco':
                    it.throw('ValueError', "unsupported format character '%s'" % conv)
                if key is not None:
                    if mapping is None:
                        it.throw('TypeError', 'format requires a mapping')
                    used_map[0] = True
                    v = it.getitem(mapping, key)
                else:
                    v = nextarg()
                out.append(conv_value(it, v, conv, spec))
            i = j + 1
            start = i
        if start < n:
            out.append(lslice(part, start, n))
    if not used_map[0] and mapping is None and pos[0] < len(seq):
        it.throw('TypeError', 'not all arguments converted during string formatting')
    return it.cat_cases(out)


def conv_value(it, v, conv, spec):
    v = it.resolve(v)
    if isinstance(v, Ite) and not pure_str(it, v):
        return it.case(v, lambda u: conv_value(it, u, conv, spec))
    if conv == 'r':
        return to_repr(it, v)
    if conv == 's':
        s = to_str(it, v)
        if spec:
            if isinstance(s, str):
                return ('%' + spec + 's') % str(s)
            return Term('strop', 'fmt', s, spec)
        return s
    if isinstance(v, Ite):
        return mk_ite(v.c, conv_value(it, v.a, conv, spec), conv_value(it, v.b, conv, spec))
    if isinstance(v, (int, float)):
        return ('%' + spec + conv) % v
    if v is None or isinstance(v, (str, SStr, tuple)):
        it.throw('TypeError', '%%%s format: a number is required' % conv)
    if isinstance(v, Term):
        if term_type(v) == 'str':
            it.throw('TypeError', '%%%s format: a number is required' % conv)
        return Term('str', v)
    it.throw('TypeError', '%%%s format: a number is required' % conv)


def str_format(it, args, kw):
    fmt = it.resolve(args[0])
    if isinstance(fmt, Ite):
        return it.case(fmt, lambda u: str_format(it, [u] + args[1:], kw))
    pos = list(args[1:])
    out = []
    auto = [0]
    for part in sparts(fmt):
        if not isinstance(part, str):
            out.append(part)
            continue
        at = 0
        try:
            pieces = list(_string.Formatter().parse(str(part)))
        except ValueError:
            it.throw('ValueError', 'bad format string')
        for lit, name, spec, conv in pieces:
            if lit:
                k = part.find(lit, at)
                if k >= 0:
                    out.append(lslice(part, k, k + len(lit)))
                    at = k + len(lit)
                else:
                    out.append(lit)
            if name is None:
                continue
            first, rest = _string._string.formatter_field_name_split(name)
            if first == '':
                first = auto[0]
                auto[0] += 1
            if isinstance(first, int):
                if first >= len(pos):
                    it.throw('IndexError', 'tuple index out of range')
                v = pos[first]
            else:
                if first not in kw:
                    it.throw('KeyError', first)
                v = kw[first]
            for is_attr, key in rest:
                v = it.getattr(v, key) if is_attr else it.getitem(v, key)
            if conv == 'r':
                v = to_repr(it, v)
            out.append(format_value(it, v, spec or ''))
    return it.cat_cases(out)


def str_join(it, args, kw):
    sep = it.resolve(args[0])
    coll = it.resolve(args[1])
    r = it.rec(coll)
    if isinstance(coll, tuple):
        items = coll
    elif isinstance(r, OList):
        items = r.items
    else:
        items = it.get(it.to_list(coll)).items
    return join_items(it, sep, items)


def join_items(it, sep, items):
    if any(isinstance(x, SegOpt) for x in items) and not any(isinstance(x, SegFor) for x in items):
        if not isinstance(items[0], SegOpt):
            return join_after(it, sep, items)
        if len(items[0].items) == 1:
            return it.fork(items[0].c, lambda: join_after(it, sep, tuple(items[0].items) + items[1:]), lambda: join_items(it, sep, items[1:]))
    for i, x in enumerate(items):
        if isinstance(x, SegOpt):
            return it.fork(x.c, lambda: join_items(it, sep, items[:i] + tuple(x.items) + items[i + 1:]),
                           lambda: join_items(it, sep, items[:i] + items[i + 1:]))
        if isinstance(x, SegFor):
            return Term('strop', 'join', sep, tuple(it.freeze_item(y, 0, ()) for y in items))
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(sep)
        x = it.resolve(x)
        check_strlike(it, x)
        out.append(x)
    return it.cat_cases(out)


def join_after(it, sep, items):
    """Joined text of items of which the first is certain."""
    out = []

    def piece(ys, first):
        part = []
        for y in ys:
            if not first:
                part.append(sep)
            y = it.resolve(y)
            check_strlike(it, y)
            part.append(y)
        return it.cat_cases(part)
    for i, x in enumerate(items):
        if isinstance(x, SegOpt):
            out.append(it.fork(x.c, lambda: piece(x.items, False), lambda: ''))
        else:
            out.append(piece((x,), i == 0))
    return it.cat_cases(out)


def check_strlike(it, x):
    if isinstance(x, Ite):
        check_strlike(it, x.a)
        check_strlike(it, x.b)
        return
    if isinstance(x, (str, SStr)):
        return
    if isinstance(x, Term) and term_type(x) in ('str', 'any', 'obj'):
        return
    it.throw('TypeError', 'sequence item: expected str instance, %s found' % it.describe(x))


def str_split(it, args, kw):
    s = it.resolve(args[0])
    if isinstance(s, Ite):
        return it.case(s, lambda u: str_split(it, [u] + args[1:], kw))
    sep = args[1] if len(args) > 1 else kw.get('sep')
    maxs = args[2] if len(args) > 2 else kw.get('maxsplit', -1)
    if isinstance(s, str):
        if sep is None or not isinstance(sep, str):
            if sep is None:
                return it.new_list(str(s).split(None, maxs))
            raise Unsupported('split by unknown separator')
        return it.new_list(split_lit(s, str(sep), maxs))
    if isinstance(s, SStr) and isinstance(sep, str) and maxs == -1:
        # names never contain line breaks or blanks
        if not (set(sep) & set('\n ;\t')):
            raise Unsupported('split of a symbolic string by %r' % sep)
        if any(isinstance(p, Ite) for p in s.parts):
            i = [i for i, p in enumerate(s.parts) if isinstance(p, Ite)][0]
            p = s.parts[i]
            return it.fork(p.c, lambda: str_split(it, [cat(s.parts[:i] + (p.a,) + s.parts[i + 1:])] + args[1:], kw),
                           lambda: str_split(it, [cat(s.parts[:i] + (p.b,) + s.parts[i + 1:])] + args[1:], kw))
        rows = [[]]
        for p in s.parts:
            if isinstance(p, str):
                pieces = split_lit(p, str(sep), -1)
                rows[-1].append(pieces[0])
                for q in pieces[1:]:
                    rows.append([q])
            else:
                rows[-1].append(p)
        return it.new_list([cat(r) for r in rows])
    if isinstance(s, Term):
        return Term('split', s, sep, maxs)
    raise Unsupported('split')


def split_lit(s, sep, maxs):
    out = []
    i = 0
    while maxs < 0 or len(out) < maxs:
        j = s.find(sep, i)
        if j < 0:
            break
        out.append(lslice(s, i, j))
        i = j + len(sep)
    out.append(lslice(s, i, len(s)))
    return out


def str_replace(it, args, kw):
    s = it.resolve(args[0])
    if isinstance(s, Ite):
        return it.case(s, lambda u: str_replace(it, [u] + args[1:], kw))
    a, b = it.resolve(args[1]), it.resolve(args[2])
    if isinstance(a, str) and not isinstance(b, Ite):
        out = []
        for p in sparts(s):
            if isinstance(p, str):
                pieces = split_lit(p, str(a), -1) if a else [p]
                for i, q in enumerate(pieces):
                    if i:
                        out.append(b)
                    out.append(q)
            elif isinstance(p, Term) and p.op == 'qn' or (isinstance(p, Term) and p.op in NAME_OPS):
                out.append(p)
            elif isinstance(p, Ite):
                return it.fork(p.c, lambda: str_replace(it, [resub(s, p, p.a), a, b], kw), lambda: str_replace(it, [resub(s, p, p.b), a, b], kw))
            else:
                out.append(Term('strop', 'replace', p, a, b))
        return cat(out)
    return Term('strop', 'replace', s, it.freeze(a), it.freeze(b))


def resub(s, p, q):
    return cat(tuple(q if x is p else x for x in sparts(s)))


def str_startswith(it, args, kw):
    s, p = it.resolve(args[0]), it.resolve(args[1])
    if isinstance(s, Ite):
        return it.resolve_cond(it.case(s, lambda u: str_startswith(it, [u, p], kw)))
    if isinstance(p, tuple):
        return disj([str_startswith(it, [s, q], kw) for q in p])
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p)
    if isinstance(p, str):
        if not p:
            return True
        h = sparts(s)[0]
        if isinstance(h, str):
            n = min(len(h), len(p))
            if h[:n] != p[:n]:
                return False
            if len(h) >= len(p):
                return True
        return Term('startswith', s, p)
    return Term('startswith', s, p)


def str_endswith(it, args, kw):
    s, p = it.resolve(args[0]), it.resolve(args[1])
    if isinstance(s, Ite):
        return it.resolve_cond(it.case(s, lambda u: str_endswith(it, [u, p], kw)))
    if isinstance(p, tuple):
        return disj([str_endswith(it, [s, q], kw) for q in p])
    if isinstance(s, str) and isinstance(p, str):
        return s.endswith(p)
    if isinstance(p, str):
        if not p:
            return True
        h = sparts(s)[-1]
        if isinstance(h, Ite):
            return it.resolve_cond(it.fork(h.c, lambda: str_endswith(it, [resub(s, h, h.a), p], kw), lambda: str_endswith(it, [resub(s, h, h.b), p], kw)))
        if isinstance(h, str):
            n = min(len(h), len(p))
            if h[len(h) - n:] != p[len(p) - n:]:
                return False
            if len(h) >= len(p):
                return True
        elif isinstance(h, Term) and (h.op in NAME_OPS or h.op in ('qn',) or (h.op == 'str' and isinstance(h.args[0], Term) and h.args[0].op in NAME_OPS)) and not p[-1:].isalnum() and p[-1:] not in '_"`':
            return False
        return Term('endswith', s, p)
    return Term('endswith', s, p)


def str_host(name):
    def f(it, args, kw):
        s = it.resolve(args[0])
        if isinstance(s, Ite):
            return it.case(s, lambda u: f(it, [u] + args[1:], kw))
        rest = [it.resolve(a) for a in args[1:]]
        if isinstance(s, (str, bytes)) and all(is_const(a) for a in rest) and all(is_const(v) for v in kw.values()):
            try:
                plain = [str(a) if isinstance(a, str) else a for a in rest]
                r = getattr(str(s) if isinstance(s, str) else s, name)(*plain, **kw)
            except Exception as e:
                it.throw(type(e).__name__ if type(e).__name__ in it.natives else 'ValueError', str(e))
            if isinstance(r, list):
                return it.new_list(r)
            if isinstance(r, str) and isinstance(s, LStr):
                if name in ('upper', 'lower') and len(r) == len(s):
                    return lstr(r, s.segs)
                if name in ('strip', 'rstrip', 'lstrip'):
                    k = str(s).find(r) if r else 0
                    return lslice(s, k, k + len(r))
            return r
        if name in ('strip', 'rstrip', 'lstrip') and isinstance(s, SStr) and not any(isinstance(p, Ite) for p in (s.parts[0], s.parts[-1])):
            parts = list(s.parts)
            chars = [str(a) for a in rest if a is not None]
            if name != 'rstrip' and isinstance(parts[0], str):
                q = str(parts[0]).lstrip(*chars)
                parts[0] = lslice(parts[0], len(parts[0]) - len(q), len(parts[0]))
            if name != 'lstrip' and isinstance(parts[-1], str):
                q = str(parts[-1]).rstrip(*chars)
                parts[-1] = lslice(parts[-1], 0, len(q))
            return cat(parts)
        if name in ('upper', 'lower', 'title', 'capitalize') and isinstance(s, SStr):
            return cat([f(it, [p], {}) for p in s.parts])
        if name in ('find', 'rfind', 'index', 'rindex', 'count'):
            return Term('int', 'str.' + name, it.freeze(s), it.freeze(tuple(rest)))
        if name.startswith('is'):
            return Term('atom', 'str.' + name, it.freeze(s))
        if name in ('rsplit', 'partition', 'rpartition', 'splitlines'):
            if name == 'splitlines' and isinstance(s, SStr):
                return str_split(it, [s, '\n'], {})
            return Term('split', name, it.freeze(s), it.freeze(tuple(rest)))
        return Term('strop', name, it.freeze(s), it.freeze(tuple(rest)))
    return f


STR = {n: str_host(n) for n in dir(str) if not n.startswith('__')}
STR.update({'format': str_format, 'join': str_join, 'split': str_split, 'replace': str_replace,
            'startswith': str_startswith, 'endswith': str_endswith})


def str_encode(it, args, kw):
    s = it.resolve(args[0])
    if isinstance(s, str):
        return str(s).encode()
    return Term('strop', 'encode', it.freeze(s))


STR['encode'] = str_encode


# ---- lists ------------------------------------------------------------------------------

def L(fn):
    return fn


def list_append(it, args, kw):
    it.list_append(args[0], args[1])


def list_extend(it, args, kw):
    lst, src = args[0], it.resolve(args[1])
    if isinstance(src, Ite):
        it.case(src, lambda u: list_extend(it, [lst, u], kw))
        return
    r = it.rec(src)
    if isinstance(src, tuple):
        it.set(lst, OList(it.get(lst).items + src))
    elif isinstance(r, OList):
        it.set(lst, OList(it.get(lst).items + r.items))
    else:
        it.iterate(src, lambda x: it.list_append(lst, x))


def list_insert(it, args, kw):
    items = it.get(args[0]).items
    i = it.resolve(args[1])
    if not isinstance(i, int) or any(isinstance(x, (SegOpt, SegFor)) for x in items):
        if i == 0:
            it.set(args[0], OList((args[2],) + items))
            return
        raise Unsupported('list.insert')
    items = list(items)
    items.insert(i, args[2])
    it.set(args[0], OList(items))


def list_pop(it, args, kw):
    items = it.get(args[0]).items
    i = it.resolve(args[1]) if len(args) > 1 else -1
    if not items:
        it.throw('IndexError', 'pop from empty list')
    if not isinstance(i, int):
        raise Unsupported('list.pop')
    x = items[i] if -len(items) <= i < len(items) else None
    if any(isinstance(y, (SegOpt, SegFor)) for y in items) and not (i == -1 and not isinstance(items[-1], (SegOpt, SegFor))) \
            and not (i == 0 and not isinstance(items[0], (SegOpt, SegFor))):
        raise Unsupported('list.pop of partly unknown list')
    items = list(items)
    try:
        items.pop(i)
    except IndexError:
        it.throw('IndexError', 'pop index out of range')
    it.set(args[0], OList(items))
    return x


def list_remove(it, args, kw):
    items = it.get(args[0]).items
    for i, x in enumerate(items):
        if isinstance(x, (SegOpt, SegFor)):
            raise Unsupported('list.remove')
        c = it.eq(x, args[1])
        d = it.decide(c)
        if d is True:
            it.set(args[0], OList(items[:i] + items[i + 1:]))
            return
        if d is None:
            raise Unsupported('list.remove')
    it.throw('ValueError', 'list.remove(x): x not in list')


def list_index(it, args, kw):
    items = it.concrete_items(args[0])
    if items is None:
        raise Unsupported('index')
    for i, x in enumerate(items):
        d = it.decide(it.eq(x, args[1]))
        if d is True:
            return i
        if d is None:
            raise Unsupported('index')
    it.throw('ValueError', 'not in list')


def list_count(it, args, kw):
    items = it.concrete_items(args[0])
    if items is None:
        return Term('len', it.freeze(args[0]))
    n = 0
    for x in items:
        d = it.decide(it.eq(x, args[1]))
        if d is None:
            return Term('len', it.freeze(args[0]))
        n += d
    return n


def list_sort(it, args, kw):
    s = sorted_(it, [args[0]], kw)
    it.set(args[0], OList(it.get(s).items))


def list_reverse(it, args, kw):
    it.set(args[0], OList(tuple(reversed(it.get(args[0]).items))))


def list_clear(it, args, kw):
    it.set(args[0], OList(()))


def list_copy(it, args, kw):
    return it.new_list(it.get(args[0]).items)


LIST = {'append': list_append, 'extend': list_extend, 'insert': list_insert, 'pop': list_pop, 'remove': list_remove,
        'index': list_index, 'count': list_count, 'sort': list_sort, 'reverse': list_reverse, 'clear': list_clear,
        'copy': list_copy, '__iter__': lambda it, a, k: iter_(it, a, k), '__len__': lambda it, a, k: len_(it, a, k),
        '__getitem__': lambda it, a, k: it.getitem(a[0], a[1]), '__contains__': lambda it, a, k: it.contains(a[0], a[1]),
        '__setitem__': lambda it, a, k: it.setitem(a[0], a[1], a[2]), '__add__': lambda it, a, k: binop(it, 'Add', a[0], a[1], False)}
TUPLE = {'index': list_index, 'count': list_count, '__iter__': LIST['__iter__'], '__len__': LIST['__len__'], '__getitem__': LIST['__getitem__'],
         '__contains__': LIST['__contains__']}


# ---- dicts ------------------------------------------------------------------------------

def dict_find(it, d, k, found, missing):
    """Calls found(value) / missing() under the right conditions."""
    r = it.get(d)
    kk = it.key(k)
    if kk in r.d:
        v = it.resolve(r.d[kk][1])
        if it.has_absent(v):
            return it.case(v, lambda u: missing() if u is ABSENT else found(u))
        return found(v)
    if not is_const(k) or any(not is_const(x) for x, _ in r.d.values()):
        for x, v in r.d.values():
            if is_const(k) and is_const(x):
                continue
            c = it.eq(k, x)
            dd = it.decide(c)
            if dd is True:
                return found(it.resolve(v))
            if dd is None and not isinstance(x, Ref):
                def rest(x=x):
                    return dict_find_rest(it, d, k, found, missing, x)
                return it.fork(c, lambda v=v: found(it.resolve(v)), rest)
    if r.open_ is not None:
        o = r.open_
        t = Term('item', o, it.freeze(k))
        return it.fork(Term('in', it.freeze(k), o), lambda: found(t), missing)
    return missing()


def dict_find_rest(it, d, k, found, missing, excluded):
    r = it.get(d)
    seen = False
    for x, v in r.d.values():
        if not seen:
            seen = x is excluded or same(x, excluded)
            continue
        if is_const(k) and is_const(x):
            continue
        c = it.eq(k, x)
        dd = it.decide(c)
        if dd is True:
            return found(it.resolve(v))
        if dd is None and not isinstance(x, Ref):
            return it.fork(c, lambda: found(it.resolve(v)), lambda: dict_find_rest(it, d, k, found, missing, x))
    if r.open_ is not None:
        o = r.open_
        t = Term('item', o, it.freeze(k))
        return it.fork(Term('in', it.freeze(k), o), lambda: found(t), missing)
    return missing()


def dict_get(it, args, kw):
    default = args[2] if len(args) > 2 else kw.get('default')
    k = it.resolve(args[1])
    if isinstance(k, Ite):
        return it.case(k, lambda u: dict_get(it, [args[0], u] + args[2:], kw))
    return dict_find(it, args[0], k, lambda v: v, lambda: default)


def dict_setdefault(it, args, kw):
    default = args[2] if len(args) > 2 else None
    k = it.resolve(args[1])
    if isinstance(k, Ite):
        return it.case(k, lambda u: dict_setdefault(it, [args[0], u] + args[2:], kw))

    def missing():
        it.setitem(args[0], k, default)
        return default
    return dict_find(it, args[0], k, lambda v: v, missing)


def dict_pop(it, args, kw):
    k = it.resolve(args[1])
    if isinstance(k, Ite):
        return it.case(k, lambda u: dict_pop(it, [args[0], u] + args[2:], kw))

    def found(v):
        r = it.get(args[0])
        it.set(args[0], r.drop(it.key(k)))
        return v

    def missing():
        if len(args) > 2:
            return args[2]
        if 'default' in kw:
            return kw['default']
        it.throw('KeyError', k)
    return dict_find(it, args[0], k, found, missing)


def dict_update(it, args, kw):
    if len(args) > 1:
        it.dict_update(args[0], args[1])
    for k, v in kw.items():
        if k == '**':
            it.dict_update(args[0], v)
        elif isinstance(k, tuple):
            it.setitem(args[0], k[1], v)
        else:
            it.setitem(args[0], k, v)


def dict_copy(it, args, kw):
    r = it.get(args[0])
    return it.alloc(ODict(dict(r.d), r.open_, r.default))


def dict_clear(it, args, kw):
    it.set(args[0], ODict({}))


def dict_popitem(it, args, kw):
    r = it.get(args[0])
    if not r.d:
        it.throw('KeyError', 'popitem(): dictionary is empty')
    k = list(r.d)[-1]
    kk, v = r.d[k]
    it.set(args[0], r.drop(k))
    return (kk, v)


DICT = {'get': dict_get, 'setdefault': dict_setdefault, 'pop': dict_pop, 'update': dict_update, 'copy': dict_copy,
        'clear': dict_clear, 'popitem': dict_popitem,
        'items': lambda it, a, k: Lazy('items', a[0]), 'keys': lambda it, a, k: Lazy('keys', a[0]),
        'values': lambda it, a, k: Lazy('values', a[0]),
        '__contains__': lambda it, a, k: it.contains(a[0], a[1]), '__getitem__': lambda it, a, k: it.getitem(a[0], a[1]),
        '__setitem__': lambda it, a, k: it.setitem(a[0], a[1], a[2]), '__len__': lambda it, a, k: len_(it, a, k),
        '__iter__': lambda it, a, k: Lazy('keys', a[0]), '__delitem__': lambda it, a, k: it.delitem(a[0], a[1])}


# ---- sets -------------------------------------------------------------------------------

def set_add(it, args, kw):
    r = it.get(args[0])
    d = dict(r.d)
    x = it.resolve(args[1])
    d[it.key(x)] = (x, True)
    it.set(args[0], OSet(d, r.open_))


def set_discard(it, args, kw):
    r = it.get(args[0])
    d = dict(r.d)
    d.pop(it.key(args[1]), None)
    it.set(args[0], OSet(d, r.open_))


def set_remove(it, args, kw):
    r = it.get(args[0])
    if it.key(args[1]) not in r.d and r.open_ is None:
        it.throw('KeyError', args[1])
    set_discard(it, args, kw)


def make_set(it, src):
    s = it.alloc(OSet({}))
    set_update(it, [s, src], {})
    return s


def set_update(it, args, kw):
    for src in args[1:]:
        src = it.resolve(src)
        r = it.rec(src)
        if isinstance(r, OSet):
            cur = it.get(args[0])
            d = dict(cur.d)
            d.update(r.d)
            it.set(args[0], OSet(d, cur.open_ or r.open_))
        else:
            it.iterate(src, lambda x: set_add(it, [args[0], x], {}))


def set_binary(op):
    def f(it, args, kw):
        a = it.get(args[0])
        if op == 'union':
            s = it.alloc(OSet(dict(a.d), a.open_))
            set_update(it, [s] + list(args[1:]), {})
            return s
        d = dict(a.d)
        o = a.open_
        for x in args[1:]:
            b = it.rec(it.resolve(x), OSet)
            if b is None:
                b = it.get(make_set(it, x))
            if op == 'intersection':
                if b.open_ is not None or o is not None:
                    o = Term('item', o or b.open_, 'intersection', it.uid())
                    d = {k: v for k, v in d.items() if k in b.d}
                else:
                    d = {k: v for k, v in d.items() if k in b.d}
            elif op == 'difference':
                d = {k: v for k, v in d.items() if k not in b.d}
                if b.open_ is not None and d:
                    raise Unsupported('set difference with unknown set')
            elif op == 'symmetric_difference':
                if o is not None or b.open_ is not None:
                    raise Unsupported('symmetric difference')
                n = {k: v for k, v in d.items() if k not in b.d}
                n.update({k: v for k, v in b.d.items() if k not in d})
                d = n
        return it.alloc(OSet(d, o))
    return f


def set_issubset(it, args, kw):
    a = it.get(args[0])
    b = it.rec(it.resolve(args[1]), OSet) or it.get(make_set(it, args[1]))
    if a.open_ is not None or b.open_ is not None:
        return Term('atom', 'subset', it.uid())
    return all(k in b.d for k in a.d)


SET = {'add': set_add, 'discard': set_discard, 'remove': set_remove, 'update': set_update, 'union': set_binary('union'),
       'intersection': set_binary('intersection'), 'difference': set_binary('difference'),
       'symmetric_difference': set_binary('symmetric_difference'), 'issubset': set_issubset,
       'issuperset': lambda it, a, k: set_issubset(it, [make_set(it, a[1]), a[0]], k),
       'copy': lambda it, a, k: it.alloc(OSet(dict(it.get(a[0]).d), it.get(a[0]).open_)),
       'clear': lambda it, a, k: it.set(a[0], OSet({})),
       '__contains__': lambda it, a, k: it.contains(a[0], a[1]), '__len__': lambda it, a, k: len_(it, a, k)}

BYTES = {n: str_host(n) for n in dir(bytes) if not n.startswith('__')}
INT = {n: None for n in ()}


def obj_setattr(it, args, kw):
    r = it.get(args[0])
    it.set(args[0], r.put(str(args[1]), args[2]))


def native_attr(it, v, name):
    """Attributes of native values; ABSENT when there is none."""
    if isinstance(v, (str, SStr)) or (isinstance(v, Term) and term_type(v) == 'str'):
        f = STR.get(name)
        if f is not None:
            return Bound(meth('str', name, f), v)
        if name == '__class__':
            return it.natives['str']
        return ABSENT
    if isinstance(v, Term):
        if term_type(v) in ('int', 'bool'):
            return ABSENT
        return Term('attr', v, name)
    if isinstance(v, tuple):
        f = TUPLE.get(name)
        return Bound(meth('tuple', name, f), v) if f else (it.natives['tuple'] if name == '__class__' else ABSENT)
    if isinstance(v, bytes):
        f = BYTES.get(name)
        return Bound(meth('bytes', name, f), v) if f else ABSENT
    if isinstance(v, Ref):
        r = it.get(v)
        table = None
        if isinstance(r, OList):
            table, kind = LIST, 'list'
        elif isinstance(r, ODict):
            table, kind = DICT, 'dict'
        elif isinstance(r, OSet):
            table, kind = SET, 'set'
        elif isinstance(r, OInst):
            c = it.resolve(r.cls)
            if isinstance(c, Ref) and it.get(c).native == 'exception':
                if name in ('errno', 'strerror'):
                    a = it.resolve(r.attrs.get('args', ()))
                    sub = [k for k in it.get(c).mro if it.get(k).name in ERRNO_SUB]
                    if isinstance(a, tuple) and len(a) >= 2:
                        return a[0] if name == 'errno' else a[1]
                    if sub and name == 'errno':
                        return ERRNO_SUB[it.get(sub[0]).name]
                    if it.is_subclass(c, it.natives['OSError']):
                        return None
                    return ABSENT
                if name in ('__traceback__', '__cause__', '__context__'):
                    return None
                if name == 'with_traceback':
                    return Builtin('with_traceback', lambda it_, a, k: v)
            if name == '__init__':
                return Builtin('object.__init__', lambda it_, a, k: None)
            if name == '__setattr__':
                return Builtin('object.__setattr__', lambda it_, a, k: obj_setattr(it_, [v] + a, k))
            if name in ('__str__', '__repr__'):
                return Builtin(name, lambda it_, a, k: to_str(it_, v) if name == '__str__' else to_repr(it_, v))
            if name in ('__eq__', '__ne__'):
                return Builtin(name, lambda it_, a, k: it_.eq(v, a[0]) if name == '__eq__' else neg(it_.eq(v, a[0])))
            if name == '__hash__':
                return Builtin(name, lambda it_, a, k: Term('hash', v))
            return ABSENT
        if table is not None:
            f = table.get(name)
            if f is not None:
                return Bound(meth(kind, name, f), v)
            if name == '__class__':
                return it.natives[kind]
            if name == 'default_factory' and kind == 'dict':
                return r.default
        return ABSENT
    if isinstance(v, Lazy):
        if name == '__iter__':
            return Builtin('__iter__', lambda it_, a, k: v)
        return ABSENT
    if isinstance(v, DictView):
        return dictview_attr(it, v, name)
    if isinstance(v, Prop):
        if name in ('setter', 'getter', 'deleter'):
            def f(it_, a, k):
                if name == 'setter':
                    return Prop(v.fget, a[0], v.fdel)
                if name == 'getter':
                    return Prop(a[0], v.fset, v.fdel)
                return Prop(v.fget, v.fset, a[0])
            return Builtin(name, f)
        if name in ('fget', 'fset', 'fdel'):
            return getattr(v, name)
        return ABSENT
    if isinstance(v, (ClsM, StatM)):
        if name == '__func__':
            return v.f
        return ABSENT
    if isinstance(v, Builtin):
        if name == '__name__':
            return v.name.rsplit('.', 1)[-1]
        if name == '__module__':
            return 'builtins'
        if name == '__doc__':
            return None
        if v.name == 'chain' and name == 'from_iterable':
            return Builtin('chain.from_iterable', lambda it_, a, k: Lazy('chain_from', a[0]))
        return ABSENT
    if name == '__class__':
        return it.type_of(v)
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        if name in ('real',):
            return v
    return ABSENT


def native_super_attr(it, obj, name):
    r = it.rec(obj)
    if name == '__init__':
        def init(it_, a, k):
            rr = it_.rec(obj)
            if isinstance(rr, OInst) and '__payload__' in rr.attrs:
                p = rr.attrs['__payload__']
                pr = it_.rec(p)
                if isinstance(pr, ODict):
                    dict_update(it_, [p] + a, k)
                elif isinstance(pr, OList) and a:
                    list_extend(it_, [p, a[0]], k)
                elif isinstance(pr, OSet) and a:
                    set_update(it_, [p] + a, k)
                return None
            if isinstance(rr, OInst):
                c = it_.resolve(rr.cls)
                if it_.get(c).native == 'exception':
                    it_.set(obj, rr.put('args', tuple(a)))
                    return None
                if a or k:
                    it_.throw('TypeError', 'object.__init__() takes exactly one argument')
            return None
        return Builtin('__init__', init)
    if name == '__setattr__':
        return Builtin('__setattr__', lambda it_, a, k: obj_setattr(it_, [obj] + a, k))
    if name == '__new__':
        return Builtin('__new__', obj_new)
    if isinstance(r, OInst):
        if '__payload__' in r.attrs:
            return native_attr(it, r.attrs['__payload__'], name)
        if name == '__init_subclass__':
            return Builtin(name, lambda it_, a, k: None)
        return native_attr(it, obj, name)
    if isinstance(r, OClass):
        if name == '__call__':
            return Builtin('type.__call__', lambda it_, a, k: it_.type_call(obj, it_.get(obj), a, k))
        if name == '__init_subclass__':
            return Builtin(name, lambda it_, a, k: None)
        return class_native_attr(it, obj, r, name)
    return ABSENT


def obj_new(it, args, kw):
    ref = args[0]
    r = it.get(ref)
    if r.native and r.native not in ('object', 'exception'):
        if r.native in ('type', 'plaintype'):
            return type_new(it, args, kw)
        return native_construct(it, ref, r, [], {}, bare=True)
    return it.alloc(OInst(ref, {}, it.sites()))


def class_native_attr(it, ref, r, name):
    if name == '__new__':
        return Builtin('__new__', type_new if r.native in ('type', 'plaintype') else obj_new)
    if name == '__init__':
        def init(it_, a, k):
            if r.native in ('type', 'plaintype'):
                return None
            return it_.call(native_super_attr(it_, a[0], '__init__'), a[1:], k)
        return Builtin('__init__', init)
    if name == '__setattr__':
        return Builtin('__setattr__', lambda it_, a, k: obj_setattr(it_, a, k))
    if name == '__call__':
        if r.native in ('type', 'plaintype'):
            return Builtin('type.__call__', lambda it_, a, k: it_.type_call(a[0], it_.get(a[0]), a[1:], k))
        return ABSENT
    if name == '__subclasses__':
        return Builtin(name, lambda it_, a, k: it_.new_list([Ref(ad) for ad, rec in sorted(it_.st.heap.items()) if isinstance(rec, OClass) and ref in (rec.bases or ())]))
    if name == 'mro':
        return Builtin(name, lambda it_, a, k: it_.new_list(r.mro))
    if name == '__init_subclass__':
        return Builtin(name, lambda it_, a, k: None)
    if name in ('__eq__', '__ne__', '__hash__', '__repr__', '__str__', '__getattribute__'):
        def f(it_, a, k):
            if name == '__repr__':
                return to_repr(it_, a[0])
            if name == '__str__':
                return to_str(it_, a[0])
            if name == '__eq__':
                return it_.is_(a[0], a[1])
            if name == '__hash__':
                return Term('hash', a[0])
            if name == '__getattribute__':
                return it_.getattr(a[0], a[1])
            return neg(it_.is_(a[0], a[1]))
        return Builtin(name, f)
    tables = {'str': STR, 'list': LIST, 'dict': DICT, 'set': SET, 'frozenset': SET, 'tuple': TUPLE, 'bytes': BYTES}
    t = tables.get(r.native)
    if t is not None:
        if name == 'fromkeys' and r.native == 'dict':
            def fk(it_, a, k):
                d = it_.new_dict()
                it_.iterate(a[0], lambda x: it_.setitem(d, x, a[1] if len(a) > 1 else None))
                return d
            return Builtin('fromkeys', fk)
        if name in t:
            fn = t[name]

            def unbound(it_, a, k):
                x = it_.rec(it_.resolve(a[0]))
                if isinstance(x, OInst) and '__payload__' in x.attrs:
                    a = [x.attrs['__payload__']] + list(a[1:])
                return fn(it_, a, k)
            return meth('unbound ' + r.native, name, unbound)
        if name == 'maketrans':
            return ABSENT
    if r.native == 'property' and name in ():
        pass
    if not (name.startswith('__') and name.endswith('__')):
        return it.stub_missing(ref, name)
    return ABSENT


def dictview_attr(it, v, name):
    ref = v.ref

    def get(it_, a, k):
        x = it_.get(ref).attrs.get(it_.resolve(a[0]), ABSENT)
        d = a[1] if len(a) > 1 else None
        return it_.subst_absent(it_.resolve(x), d) if it_.has_absent(x) else x

    def as_dict(it_):
        return it_.new_dict([(k, x) for k, x in it_.get(ref).attrs.items() if x is not ABSENT])
    if name == 'get':
        return Builtin('get', get)
    if name in ('items', 'keys', 'values'):
        return Builtin(name, lambda it_, a, k: Lazy(name, as_dict(it_)))
    if name == 'copy':
        return Builtin(name, lambda it_, a, k: as_dict(it_))
    if name == 'update':
        def update(it_, a, k):
            d = it_.new_dict()
            dict_update(it_, [d] + a, k)
            rec = it_.get(ref)
            for kk, x in it_.get(d).d.values():
                rec = rec.put(str(kk), x)
            it_.set(ref, rec)
        return Builtin(name, update)
    if name == 'pop':
        def pop(it_, a, k):
            x = it_.get(ref).attrs.get(a[0], ABSENT)
            if x is ABSENT:
                if len(a) > 1:
                    return a[1]
                it_.throw('KeyError', a[0])
            it_.set(ref, it_.get(ref).drop(a[0]))
            if it_.has_absent(x):
                if len(a) > 1:
                    return it_.subst_absent(x, a[1])
                raise Unsupported('__dict__.pop')
            return x
        return Builtin(name, pop)
    if name == 'setdefault':
        def sd(it_, a, k):
            x = it_.get(ref).attrs.get(a[0], ABSENT)
            if x is ABSENT:
                it_.set(ref, it_.get(ref).put(a[0], a[1]))
                return a[1]
            return x
        return Builtin(name, sd)
    if name == '__contains__':
        return Builtin(name, lambda it_, a, k: it_.contains(v, a[0]))
    return ABSENT


# ---- operators ---------------------------------------------------------------------------

HOST = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'Div': lambda a, b: a / b,
        'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b, 'Pow': lambda a, b: a ** b,
        'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b,
        'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b}
DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow',
          'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift', 'MatMult': 'matmul'}


def strlike(v):
    return isinstance(v, (str, SStr)) or (isinstance(v, Term) and term_type(v) == 'str')


def binop(it, op, a, b, inplace):
    a, b = it.resolve(a), it.resolve(b)
    if op == 'Mod' and isinstance(a, (str, SStr)):
        if isinstance(a, SStr) and any(isinstance(p, Ite) for p in a.parts):
            p = [p for p in a.parts if isinstance(p, Ite)][0]
            return it.fork(p.c, lambda: binop(it, op, resub(a, p, p.a), b, inplace), lambda: binop(it, op, resub(a, p, p.b), b, inplace))
        return percent(it, a, b)
    if op == 'Add' and (strlike(a) or strlike(b)):
        # alternatives stay inside the string when both are strings
        if all_str(a) and all_str(b):
            return it.cat_cases([a, b])
    if isinstance(a, Ite):
        return it.case(a, lambda u: binop(it, op, u, b, inplace))
    if isinstance(b, Ite):
        return it.case(b, lambda u: binop(it, op, a, u, inplace))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        try:
            return HOST[op](a, b)
        except ZeroDivisionError:
            it.throw('ZeroDivisionError')
        except TypeError:
            it.throw('TypeError')
    ra, rb = it.rec(a), it.rec(b)
    if isinstance(ra, OInst) or isinstance(rb, OInst):
        r = inst_binop(it, op, a, b, ra, rb, inplace)
        if r is not NOTIMPL:
            return r
        pa = ra.attrs.get('__payload__') if isinstance(ra, OInst) else a
        pb = rb.attrs.get('__payload__') if isinstance(rb, OInst) else b
        if pa is not None and pb is not None:
            return binop(it, op, pa, pb, False)
        it.throw('TypeError', 'unsupported operand type(s) for %s' % op)
    if op == 'Add':
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(ra, OList) and isinstance(rb, OList):
            if inplace:
                it.set(a, OList(ra.items + rb.items))
                return a
            return it.new_list(ra.items + rb.items)
        if isinstance(ra, OList) and inplace:
            list_extend(it, [a, b], {})
            return a
        if strlike(a) and strlike(b):
            return cat([a, b])
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a + b
        for x, y in ((a, b), (b, a)):
            if strlike(x) and isinstance(y, Term) and term_type(y) == 'any':
                return cat([a, b])
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and not isinstance(x, Term):
                if isinstance(x, tuple):
                    return x * y
                if isinstance(x, str):
                    return lcat([x] * y) if y > 0 else ''
                rx = it.rec(x)
                if isinstance(rx, OList):
                    return it.new_list(rx.items * y)
    if isinstance(ra, OSet):
        m = {'BitOr': 'union', 'BitAnd': 'intersection', 'Sub': 'difference', 'BitXor': 'symmetric_difference'}.get(op)
        if m and isinstance(rb, OSet):
            r = SET[m](it, [a, b], {})
            if inplace:
                it.set(a, it.get(r))
                return a
            return r
    if isinstance(ra, ODict) and isinstance(rb, ODict) and op == 'BitOr':
        d = a if inplace else dict_copy(it, [a], {})
        it.dict_update(d, b)
        return d
    if isinstance(a, Lazy) and a.kind in ('keys', 'items'):
        return binop(it, op, make_set(it, a), b, False)
    if isinstance(b, Lazy) and b.kind in ('keys', 'items'):
        return binop(it, op, a, make_set(it, b), False)
    if isinstance(a, Term) or isinstance(b, Term):
        if isinstance(a, Term) and isinstance(b, Term) and op in ('BitAnd', 'BitOr') and term_type(a) == 'bool' and term_type(b) == 'bool':
            return conj([a, b]) if op == 'BitAnd' else disj([a, b])
        bad = lambda x: x is None or isinstance(x, (tuple, Ref)) or strlike(x)  # noqa
        t = a if isinstance(a, Term) else b
        o = b if t is a else a
        if term_type(t) in ('int', 'bool') and bad(o):
            it.throw('TypeError', 'unsupported operand type(s) for %s' % op)
        return Term(DUNDER[op], it.freeze(a), it.freeze(b))
    it.throw('TypeError', 'unsupported operand type(s) for %s: %s and %s' % (op, it.describe(a), it.describe(b)))


NOTIMPL = object()


def all_str(v):
    if isinstance(v, Ite):
        return all_str(v.a) and all_str(v.b)
    return strlike(v)


def inst_binop(it, op, a, b, ra, rb, inplace):
    n = DUNDER[op]
    if inplace and isinstance(ra, OInst):
        f = it.class_lookup(ra.cls, '__i%s__' % n)
        if f is not None:
            return it.call(it.bind(f[0], a, ra.cls), [b], {})
    ni = it.builtins['NotImplemented']
    if isinstance(ra, OInst):
        f = it.class_lookup(ra.cls, '__%s__' % n)
        if f is not None:
            r = it.call(it.bind(f[0], a, ra.cls), [b], {})
            if not (isinstance(r, Term) and r == ni):
                return r
    if isinstance(rb, OInst):
        f = it.class_lookup(rb.cls, '__r%s__' % n)
        if f is not None:
            r = it.call(it.bind(f[0], b, rb.cls), [a], {})
            if not (isinstance(r, Term) and r == ni):
                return r
    return NOTIMPL


def order(it, n, a, b):
    a, b = it.resolve(a), it.resolve(b)
    if isinstance(a, Ite):
        return it.resolve_cond(it.case(a, lambda u: order(it, n, u, b)))
    if isinstance(b, Ite):
        return it.resolve_cond(it.case(b, lambda u: order(it, n, a, u)))
    ra = it.rec(a)
    if isinstance(ra, OSet):
        if n in ('LtE', 'GtE'):
            return set_issubset(it, [a, b] if n == 'LtE' else [b, a], {})
        raise Unsupported('set comparison')
    if isinstance(ra, OInst):
        f = it.class_lookup(ra.cls, {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[n])
        if f is not None:
            return it.truth(it.call(it.bind(f[0], a, ra.cls), [b], {}))
    if is_const(a) and is_const(b):
        try:
            return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[n]()
        except TypeError:
            it.throw('TypeError', 'unorderable')
    if isinstance(a, tuple) and isinstance(b, tuple):
        return Term('lt', it.freeze(a), it.freeze(b)) if n in ('Lt', 'LtE') else Term('lt', it.freeze(b), it.freeze(a))
    for x, y in ((a, b), (b, a)):
        if (x is None or isinstance(x, str)) and isinstance(y, Term) and term_type(y) == 'int':
            it.throw('TypeError', 'unorderable')
    # a non-negative quantity against zero
    if isinstance(a, Term) and a.op in ('len',) and isinstance(b, int):
        if n == 'Gt' and b < 0 or n == 'GtE' and b <= 0:
            return True
        if n == 'GtE' and b == 1:
            return neg(Term('eq', a, 0))
        if n == 'Gt' and b == 0:
            return neg(Term('eq', a, 0))
        if n == 'Lt' and b <= 0:
            return False
        if n == 'Lt' and b == 1 or n == 'LtE' and b == 0:
            return Term('eq', a, 0)
    fa, fb = it.freeze(a), it.freeze(b)
    if n == 'Lt':
        return Term('lt', fa, fb)
    if n == 'Gt':
        return Term('lt', fb, fa)
    if n == 'LtE':
        return neg(Term('lt', fb, fa))
    return neg(Term('lt', fa, fb))


def getitem(it, o, k):
    o = it.resolve(o)
    if isinstance(o, Ite):
        return it.case(o, lambda u: getitem(it, u, k))
    k = it.resolve(k)
    if isinstance(k, Ite):
        return it.case(k, lambda u: getitem(it, o, u))
    if isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice':
        return getslice(it, o, *k[1:])
    if isinstance(o, (tuple, str)):
        if isinstance(k, bool) or isinstance(k, int):
            try:
                return lslice(o, k % len(o), k % len(o) + 1) if isinstance(o, str) and o else o[k]
            except IndexError:
                it.throw('IndexError', 'index out of range')
        if isinstance(k, Term):
            return Term('item', it.freeze(o), k)
        it.throw('TypeError', 'indices must be integers')
    if isinstance(o, Term) and isinstance(k, Term) and k.op == 'index' and k.args[0].args[0] == o:
        return k.args[0]        # the element at the position reached by the loop
    if isinstance(o, (Term, SStr)):
        return Term('item', o, it.freeze(k))
    if isinstance(o, DictView):
        a = it.get(o.ref).attrs
        if isinstance(k, str) and k in a and not it.has_absent(a[k]):
            return it.resolve(a[k])
        it.throw('KeyError', k)
    if isinstance(o, Lazy):
        it.throw('TypeError', "'dict_%s' object is not subscriptable" % o.kind)
    r = it.rec(o)
    if isinstance(r, OList):
        if isinstance(k, int):
            items = r.items
            if not any(isinstance(x, (SegOpt, SegFor)) for x in items):
                try:
                    return it.resolve(items[k])
                except IndexError:
                    it.throw('IndexError', 'list index out of range')
            return index_seg(it, list(items), k)
        if isinstance(k, Term):
            return Term('item', it.freeze(o), k)
        it.throw('TypeError', 'list indices must be integers')
    if isinstance(r, ODict):
        def missing():
            if r.default is not None:
                v = it.call(r.default, [], {})
                it.setitem(o, k, v)
                return v
            it.throw('KeyError', k)
        return dict_find(it, o, k, lambda v: v, missing)
    if isinstance(r, OInst):
        f = it.class_lookup(r.cls, '__getitem__')
        if f is not None:
            return it.call(it.bind(f[0], o, r.cls), [k], {})
        if '__payload__' in r.attrs:
            p = r.attrs['__payload__']
            m = it.class_lookup(r.cls, '__missing__')
            if m is not None and isinstance(it.rec(p), ODict):
                return dict_find(it, p, k, lambda v: v, lambda: it.call(it.bind(m[0], o, r.cls), [k], {}))
            return getitem(it, p, k)
    if isinstance(r, OClass):
        f = it.class_lookup(r.meta, '__getitem__') if r.meta else None
        if f is not None:
            return it.call(it.bind(f[0], o, r.meta), [k], {})
        return o
    if isinstance(o, bytes) and isinstance(k, int):
        return o[k]
    it.throw('TypeError', '%s object is not subscriptable' % it.describe(o))


def index_seg(it, items, k):
    """Index into a list with optional or repeated parts."""
    if k < 0:
        items = list(reversed(items))
        k = -k - 1
    for n, x in enumerate(items):
        if isinstance(x, SegOpt):
            inner = list(x.items)
            if len(items) and k >= 0:
                return it.fork(x.c, lambda: index_seg(it, items[:n] + inner + items[n + 1:], k),
                               lambda: index_seg(it, items[:n] + items[n + 1:], k))
        if isinstance(x, SegFor):
            break
        if n == k:
            return it.resolve(x)
    else:
        it.throw('IndexError', 'list index out of range')
    inner = [y for x in items if isinstance(x, SegFor) for y in x.items]

    def some():
        return Term('item', tuple(it.freeze_item(x, 0, ()) for x in items), k)
    c = Term('atom', 'has_index', it.uid())
    return it.fork(c, some, lambda: it.throw('IndexError', 'list index out of range'))


def getslice(it, o, a, b, c):
    o = it.resolve(o)
    if isinstance(o, Ite):
        return it.case(o, lambda u: getslice(it, u, a, b, c))
    a, b, c = it.resolve(a), it.resolve(b), it.resolve(c)
    conc = all(x is None or isinstance(x, int) for x in (a, b, c))
    if isinstance(o, str):
        if conc:
            if c in (None, 1):
                s, e, _ = slice(a, b).indices(len(o))
                return lslice(o, s, max(s, e))
            return str(o)[a:b:c]
        return Term('strop', 'slice', o, it.freeze((a, b, c)))
    if isinstance(o, tuple):
        if conc:
            return o[a:b:c]
    if isinstance(o, SStr) or (isinstance(o, Term) and term_type(o) == 'str'):
        if a is None and b is None and c is None:
            return o
        if conc and a in (None, 0) and c is None and isinstance(b, int) and b >= 0:
            p = sparts(o)
            if isinstance(p[0], str) and len(p[0]) >= b:
                return lslice(p[0], 0, b)
        if conc and isinstance(a, int) and a > 0 and b is None and c is None:
            p = sparts(o)
            if isinstance(p[0], str) and len(p[0]) >= a:
                return cat((lslice(p[0], a, len(p[0])),) + tuple(p[1:]))
        return Term('strop', 'slice', o, it.freeze((a, b, c)))
    if isinstance(o, Term):
        return Term('item', o, ('slice', it.freeze((a, b, c))))
    r = it.rec(o)
    if isinstance(r, OList):
        if a is None and b is None and c is None:
            return it.new_list(r.items)
        if conc and not any(isinstance(x, (SegOpt, SegFor)) for x in r.items):
            return it.new_list(r.items[a:b:c])
        if a is None and b is None and c == -1:
            return it.new_list(tuple(reversed(r.items)))
        if conc and c in (None, 1) and isinstance(a, int) and 0 <= a <= len(r.items) and b is None \
                and not any(isinstance(x, (SegOpt, SegFor)) for x in r.items[:a]):
            return it.new_list(r.items[a:])
        return Term('item', it.freeze(o), ('slice', it.freeze((a, b, c))))
    if isinstance(r, OInst):
        f = it.class_lookup(r.cls, '__getitem__')
        if f is not None:
            return it.call(it.bind(f[0], o, r.cls), [('slice', a, b, c)], {})
        if '__payload__' in r.attrs:
            return getslice(it, r.attrs['__payload__'], a, b, c)
    if isinstance(o, bytes) and conc:
        return o[a:b:c]
    it.throw('TypeError', 'not subscriptable')


def setitem(it, o, k, v):
    o = it.resolve(o)
    if isinstance(o, Ite):
        it.case(o, lambda u: setitem(it, u, k, v))
        return
    k = it.resolve(k)
    if isinstance(k, Ite):
        it.case(k, lambda u: setitem(it, o, u, v))
        return
    if isinstance(o, DictView):
        it.set(o.ref, it.get(o.ref).put(str(k), v))
        return
    if isinstance(o, Term):
        it.event('setitem', [o, k, v])
        return
    r = it.rec(o)
    if isinstance(r, ODict):
        kk = it.key(k)
        old = r.d.get(kk)
        it.set(o, r.put(kk, (old[0] if old else k, v)))
        return
    if isinstance(r, OList):
        if isinstance(k, int) and not any(isinstance(x, (SegOpt, SegFor)) for x in r.items):
            items = list(r.items)
            try:
                items[k] = v
            except IndexError:
                it.throw('IndexError', 'list assignment index out of range')
            it.set(o, OList(items))
            return
        if isinstance(k, tuple) and k[:1] == ('slice',) and all(x is None or isinstance(x, int) for x in k[1:]):
            items = list(r.items)
            new = it.get(it.to_list(v)).items
            items[slice(*k[1:])] = list(new)
            it.set(o, OList(items))
            return
        raise Unsupported('assignment to unknown list index')
    if isinstance(r, OInst):
        f = it.class_lookup(r.cls, '__setitem__')
        if f is not None:
            it.call(it.bind(f[0], o, r.cls), [k, v], {})
            return
        if '__payload__' in r.attrs:
            setitem(it, r.attrs['__payload__'], k, v)
            return
    it.throw('TypeError', 'object does not support item assignment')


def delitem(it, o, k):
    o = it.resolve(o)
    r = it.rec(o)
    if isinstance(r, ODict):
        def found(v):
            it.set(o, it.get(o).drop(it.key(k)))
        dict_find(it, o, it.resolve(k), found, lambda: it.throw('KeyError', k))
        return
    if isinstance(r, OList):
        if isinstance(k, int):
            list_pop(it, [o, k], {})
            return
        if isinstance(k, tuple) and k[:1] == ('slice',):
            items = list(r.items)
            del items[slice(*k[1:])]
            it.set(o, OList(items))
            return
    if isinstance(r, OInst):
        f = it.class_lookup(r.cls, '__delitem__')
        if f is not None:
            it.call(it.bind(f[0], o, r.cls), [k], {})
            return
        if '__payload__' in r.attrs:
            delitem(it, r.attrs['__payload__'], k)
            return
    if isinstance(o, DictView):
        it.delattr(o.ref, str(k))
        return
    raise Unsupported('del item')


# ---- constructors -------------------------------------------------------------------------

def type_new(it, args, kw):
    mcs, name, bases, ns = args[0], args[1], it.resolve(args[2]), it.resolve(args[3])
    attrs = {}
    r = it.rec(ns)
    if isinstance(r, OInst) and '__payload__' in r.attrs:
        r = it.rec(r.attrs['__payload__'])
    if not isinstance(r, ODict) or r.open_ is not None:
        raise Unsupported('class with unknown namespace')
    for k, v in r.d.values():
        attrs[str(k)] = v
    bases = tuple(it.concrete_items(bases))
    mod = attrs.get('__module__', it.current_module()[0])
    if mcs == it.natives['type']:
        for b in bases:
            m = it.get(b).meta
            if m is not None:
                return it.call(m, [name, bases, ns], kw)
        mcs = None
    cls = it.make_class(name, bases, attrs, mcs, mod)
    it.init_subclass(cls, kw)
    return cls


def native_construct(it, ref, r, args, kw, bare=False):
    native = r.native
    exact = ref == it.natives.get(native)
    ctor = CTORS.get(native)
    if ctor is None:
        raise Unsupported('construction of %s' % native)
    if exact:
        args = [it.resolve(a) for a in args]
        if args and isinstance(args[0], Ite) and native not in ('list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'property', 'classmethod', 'staticmethod', 'bool'):
            return it.case(args[0], lambda u: ctor(it, [u] + list(args[1:]), kw))
        return ctor(it, list(args), kw)
    ini = it.class_lookup(ref, '__init__')
    has_init = ini is not None and isinstance(ini[0], Ref)
    if native in ('property',):
        raise Unsupported('subclass of property')
    payload = ctor(it, [], {}) if (has_init or bare) and native not in ('str', 'int', 'float', 'tuple', 'bytes') else ctor(it, list(args), kw)
    obj = it.alloc(OInst(ref, {'__payload__': payload}, it.sites()))
    if has_init and not bare:
        it.call(Bound(ini[0], obj), args, kw)
    return obj


def c_str(it, a, kw):
    if not a:
        return ''
    return to_str(it, a[0])


def c_int(it, a, kw):
    if not a:
        return 0
    v = it.resolve(a[0])
    if isinstance(v, Ite):
        return it.case(v, lambda u: c_int(it, [u], kw))
    if isinstance(v, (bool, int, float)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(str(v), *[x for x in a[1:]])
        except ValueError:
            it.throw('ValueError', 'invalid literal for int()')
    if isinstance(v, Term):
        if term_type(v) == 'int':
            return v
        if term_type(v) in ('str', 'any') and v.op != 'str':
            # text of unknown content may not be a number
            if it.config.get('int_may_fail', True):
                c = Term('atom', 'isnumber', v)
                return it.fork(c, lambda: Term('int', v), lambda: it.throw('ValueError', 'invalid literal for int()'))
        return Term('int', v)
    if v is None:
        it.throw('TypeError', 'int() argument must be a string or a number')
    if isinstance(v, SStr):
        return Term('int', v)
    r = it.rec(v)
    if isinstance(r, OInst):
        f = it.class_lookup(r.cls, '__int__')
        if f is not None:
            return it.call(it.bind(f[0], v, r.cls), [], {})
    it.throw('TypeError', 'int() argument must be a string or a number')


def c_float(it, a, kw):
    v = it.resolve(a[0]) if a else 0.0
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, str):
        try:
            return float(str(v))
        except ValueError:
            it.throw('ValueError', 'could not convert')
    return Term('int', v)


def c_bool(it, a, kw):
    return it.truth(a[0]) if a else False


def c_list(it, a, kw):
    if not a:
        return it.new_list(())
    return it.to_list(a[0])


def c_tuple(it, a, kw):
    if not a:
        return ()
    v = it.resolve(a[0])
    if isinstance(v, Ite):
        return it.case(v, lambda u: c_tuple(it, [u], kw))
    items = it.concrete_items(v)
    if items is None:
        # partly unknown: keep as an (immutable by convention) abstract list
        return it.to_list(v)
    return tuple(items)


def c_dict(it, a, kw):
    d = it.new_dict()
    dict_update(it, [d] + list(a), kw)
    return d


def c_set(it, a, kw):
    if not a:
        return it.alloc(OSet({}))
    return make_set(it, a[0])


def c_prop(it, a, kw):
    a = list(a) + [None] * 4
    return Prop(a[0] if a[0] is not None else kw.get('fget'), a[1] or kw.get('fset'), a[2] or kw.get('fdel'))


def c_super(it, a, kw):
    if len(a) == 2:
        return Super(it.resolve(a[0]), it.resolve(a[1]))
    raise Unsupported('super with %d arguments' % len(a))


def c_bytes(it, a, kw):
    if not a:
        return b''
    v = it.resolve(a[0])
    if isinstance(v, str):
        return str(v).encode()
    return Term('strop', 'bytes', it.freeze(v))


CTORS = {'str': c_str, 'int': c_int, 'float': c_float, 'bool': c_bool, 'list': c_list, 'tuple': c_tuple, 'dict': c_dict,
         'set': c_set, 'frozenset': c_set, 'property': c_prop, 'classmethod': lambda it, a, k: ClsM(a[0]),
         'staticmethod': lambda it, a, k: StatM(a[0]), 'super': c_super, 'bytes': c_bytes,
         'range': lambda it, a, k: Lazy('range', *a)}


# ---- functions ----------------------------------------------------------------------------

def len_(it, args, kw):
    v = it.resolve(args[0])
    if isinstance(v, Ite):
        return it.case(v, lambda u: len_(it, [u], kw))
    if isinstance(v, (str, tuple, bytes)):
        return len(v)
    r = it.rec(v)
    if isinstance(r, OInst):
        f = it.class_lookup(r.cls, '__len__')
        if f is not None:
            return it.call(it.bind(f[0], v, r.cls), [], {})
        if '__payload__' in r.attrs:
            return len_(it, [r.attrs['__payload__']], kw)
        it.throw('TypeError', 'object has no len()')
    if isinstance(r, OList):
        if any(isinstance(x, SegFor) for x in r.items):
            return Term('len', it.freeze(v))
        if any(isinstance(x, SegOpt) for x in r.items):
            return len_items(it, r.items)
        return len(r.items)
    if isinstance(r, (ODict, OSet)):
        if r.open_ is not None:
            return Term('len', r.open_)
        conds = [it.present(x) for k, x in r.d.values()]
        if all(c is True for c in conds):
            return len(conds)
        return Term('len', it.freeze(v))
    if isinstance(v, SStr) or isinstance(v, Term):
        if isinstance(v, Term) and term_type(v) in ('int', 'bool'):
            it.throw('TypeError', 'object has no len()')
        return Term('len', v)
    if isinstance(v, Lazy) and v.kind in ('keys', 'values', 'items'):
        return len_(it, [v.args[0]], kw)
    if isinstance(v, Lazy) and v.kind == 'range':
        items = it.concrete_items(v)
        return len(items) if items is not None else Term('len', v)
    it.throw('TypeError', '%s has no len()' % it.describe(v))


def len_items(it, items):
    for i, x in enumerate(items):
        if isinstance(x, SegOpt):
            return it.fork(x.c, lambda: len_items(it, items[:i] + tuple(x.items) + items[i + 1:]),
                           lambda: len_items(it, items[:i] + items[i + 1:]))
    return len(items)


def isinstance_(it, args, kw):
    return it.isinstance_(args[0], args[1])


def issubclass_(it, args, kw):
    a, b = it.resolve(args[0]), it.resolve(args[1])
    if isinstance(b, tuple):
        return disj([issubclass_(it, [a, x], kw) for x in b])
    if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(it.get(a), OClass) and isinstance(it.get(b), OClass):
        return it.is_subclass(a, b)
    if isinstance(a, Ref) and not isinstance(it.get(a), OClass):
        it.throw('TypeError', 'issubclass() arg 1 must be a class')
    return Term('isinst', 'sub', it.freeze(a), it.freeze(b))


def getattr_(it, args, kw):
    name = it.resolve(args[1])
    if isinstance(name, Ite):
        return it.case(name, lambda u: getattr_(it, [args[0], u] + args[2:], kw))
    if not isinstance(name, str):
        o = it.resolve(args[0])
        if isinstance(o, Term):
            return Term('attr', o, name)
        raise Unsupported('getattr with unknown name')
    if len(args) > 2:
        return it.getattr(args[0], str(name), args[2])
    return it.getattr(args[0], str(name))


def hasattr_(it, args, kw):
    name = it.resolve(args[1])
    o = it.resolve(args[0])
    if isinstance(o, Ite):
        return it.resolve_cond(it.case(o, lambda u: hasattr_(it, [u, name], kw)))
    if not isinstance(name, str):
        raise Unsupported('hasattr with unknown name')
    if isinstance(o, Term) and term_type(o) not in ('str', 'int', 'bool'):
        return Term('hasattr', o, str(name))
    v = it.getattr(o, str(name), ABSENT)
    return it.present(v)


def setattr_(it, args, kw):
    name = it.resolve(args[1])
    if isinstance(name, Ite):
        it.case(name, lambda u: setattr_(it, [args[0], u, args[2]], kw))
        return
    if not isinstance(name, str):
        raise Unsupported('setattr with unknown name')
    it.setattr(args[0], str(name), args[2])


def delattr_(it, args, kw):
    it.delattr(args[0], str(args[1]))


def print_(it, args, kw):
    it.event('print', args, {k: v for k, v in kw.items()})


def loop_exit(it, iterable, test, found, otherwise):
    """Loop with early exit: test(x) -> condition; found(x) value when first true; otherwise() after the loop."""
    lid = ('brk', it.uid())
    saved = it.abrupt
    it.abrupt = []
    frame, depth = it.frame, len(it.stack)

    def body(x):
        def hit():
            v = found(x)
            it.abrupt.append(('break', lid, it.st, v))
            raise Dead()
        it.fork(test(x), hit, lambda: None)
    res = []
    try:
        it.iterate(iterable, body)
        res.append((it.st, otherwise()))
    except Dead:
        pass
    mine = it.abrupt
    it.abrupt = saved
    it.frame = frame
    del it.stack[depth:]
    for e in mine:
        if e[0] == 'break' and e[1] == lid:
            res.append((e[2], e[3]))
        else:
            it.abrupt.append(e)
    return it.join(res)


def any_(it, args, kw):
    return loop_exit(it, args[0], lambda x: it.truth(x), lambda x: True, lambda: False)


def all_(it, args, kw):
    return loop_exit(it, args[0], lambda x: neg(it.truth(x)), lambda x: False, lambda: True)


def next_(it, args, kw):
    v = it.resolve(args[0])

    def stop():
        if len(args) > 1:
            return args[1]
        it.throw('StopIteration')
    r = it.rec(v)
    if isinstance(r, OIter):
        if isinstance(r.pos, int):
            if r.pos < len(r.items):
                it.set(v, OIter(r.items, r.pos + 1))
                return it.resolve(r.items[r.pos])
            return stop()
        raise Unsupported('next')
    if isinstance(r, OInst):
        f = it.class_lookup(r.cls, '__next__')
        if f is not None:
            return it.call(it.bind(f[0], v, r.cls), [], {})
    if isinstance(r, OGen) or isinstance(v, Lazy):
        return loop_exit(it, v, lambda x: True, lambda x: x, stop)
    if isinstance(v, Term):
        c = Term('atom', 'next', it.uid())
        return it.fork(c, lambda: Term('elem', v, it.uid()), stop)
    it.throw('TypeError', 'not an iterator')


def iter_(it, args, kw):
    if len(args) == 2:
        return Lazy('iter2', args[0], args[1])
    v = it.resolve(args[0])
    r = it.rec(v)
    if isinstance(v, (tuple, str)):
        return it.alloc(OIter(tuple(v), 0))
    if isinstance(r, OList):
        if any(isinstance(x, (SegOpt, SegFor)) for x in r.items):
            return it.alloc(OGen(lambda cb: it.iterate(v, cb), 'iter'))
        return it.alloc(OIter(r.items, 0))
    if isinstance(r, (OIter, OGen)) or isinstance(v, Lazy):
        return v
    if isinstance(r, OInst):
        f = it.class_lookup(r.cls, '__iter__')
        if f is not None:
            return it.call(it.bind(f[0], v, r.cls), [], {})
    if isinstance(r, (ODict, OSet)):
        items = it.concrete_items(v)
        if items is not None:
            return it.alloc(OIter(tuple(items), 0))
        return it.alloc(OGen(lambda cb: it.iterate(v, cb), 'iter'))
    if isinstance(v, Term):
        return Term('iter', v)
    it.throw('TypeError', 'object is not iterable')


def sorted_(it, args, kw):
    lst = it.to_list(args[0])
    items = it.get(lst).items
    key = kw.get('key')
    rev = kw.get('reverse', False)
    if any(isinstance(x, (SegOpt, SegFor)) for x in items):
        return lst
    keys = []
    for x in items:
        k = it.resolve(it.call(key, [x], {})) if key is not None else it.resolve(x)
        keys.append(k)
    if all(is_const(k) for k in keys):
        try:
            idx = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(rev))
        except TypeError:
            it.throw('TypeError', 'unorderable')
        return it.new_list([items[i] for i in idx])
    return lst


def sum_(it, args, kw):
    acc = args[1] if len(args) > 1 else kw.get('start', 0)
    cell = it.new_list((acc,))

    def add(x):
        cur = it.get(cell).items[0]
        it.set(cell, OList((binop(it, 'Add', cur, x, False),)))
    items = it.concrete_items(args[0])
    if items is None:
        return Term('add', 'sum', it.freeze(args[0]))
    for x in items:
        add(x)
    return it.get(cell).items[0]


def minmax(which):
    def f(it, args, kw):
        items = it.concrete_items(args[0]) if len(args) == 1 else list(args)
        if items is None:
            return Term('int', which, it.freeze(args[0]))
        items = [it.resolve(x) for x in items]
        key = kw.get('key')
        if not items:
            if 'default' in kw:
                return kw['default']
            it.throw('ValueError', 'empty sequence')
        if key is None and all(is_const(x) for x in items):
            return (min if which == 'min' else max)(items)
        return Term('int', which, it.freeze(tuple(items)))
    return f


def import_(it, args, kw):
    name = it.resolve(args[0])
    fromlist = args[3] if len(args) > 3 else kw.get('fromlist', ())
    level = args[4] if len(args) > 4 else kw.get('level', 0)
    if isinstance(name, Ite):
        return it.case(name, lambda u: import_(it, [u] + list(args[1:]), kw))
    if not isinstance(name, str):
        ev = it.event('import', [name])
        c = Term('atom', 'importable', name if isinstance(name, (Term, SStr)) else repr(name))
        return it.fork(c, lambda: Term('module', name), lambda: it.throw('ImportError', 'No module'))
    it.event('import', [name])
    m = it.import_module(str(name))
    c = it.truth(fromlist)
    if it.decide(c) is True:
        return m
    return it.modules.get(str(name).split('.')[0], m)


def import_module_(it, args, kw):
    name = it.resolve(args[0])
    if isinstance(name, str) and name.startswith('.'):
        pkg = args[1] if len(args) > 1 else kw.get('package')
        n = len(name) - len(name.lstrip('.'))
        parts = str(pkg).split('.')
        parts = parts[:len(parts) - (n - 1)]
        name = '.'.join(parts + [str(name)[n:]])
    elif isinstance(name, SStr) and isinstance(name.parts[0], str) and name.parts[0].startswith('.'):
        pkg = args[1] if len(args) > 1 else kw.get('package')
        name = cat([pkg, name])
    return import_(it, [name, None, None, it.new_list(('x',))], {})


def callable_(it, args, kw):
    v = it.resolve(args[0])
    if isinstance(v, Ite):
        return it.resolve_cond(it.case(v, lambda u: callable_(it, [u], kw)))
    if isinstance(v, (Bound, Builtin)):
        return True
    r = it.rec(v)
    if isinstance(r, (OFunc, OClass)):
        return True
    if isinstance(r, OInst):
        return it.class_lookup(r.cls, '__call__') is not None
    if isinstance(v, Term) and term_type(v) in ('any', 'obj'):
        return Term('callable', v)
    return False


def vars_(it, args, kw):
    if args:
        return it.getattr(args[0], '__dict__')
    raise Unsupported('vars')


def dir_(it, args, kw):
    v = it.resolve(args[0])
    r = it.rec(v)
    names = set()
    if isinstance(r, OInst):
        names.update(r.attrs)
        for k in it.get(it.resolve(r.cls)).mro:
            names.update(it.get(k).attrs)
    elif isinstance(r, OClass):
        for k in r.mro:
            names.update(it.get(k).attrs)
    elif isinstance(r, OModule):
        names.update(r.attrs)
    return it.new_list(sorted(names))


def id_(it, args, kw):
    return Term('hash', it.freeze(args[0]), 'id')


def map_(it, args, kw):
    return Lazy('map', *args)


FUNCS = {
    'super': c_super,
    'len': len_, 'isinstance': isinstance_, 'issubclass': issubclass_, 'getattr': getattr_, 'hasattr': hasattr_,
    'setattr': setattr_, 'delattr': delattr_, 'print': print_, 'any': any_, 'all': all_, 'next': next_, 'iter': iter_,
    'sorted': sorted_, 'sum': sum_, 'min': minmax('min'), 'max': minmax('max'), '__import__': import_,
    'callable': callable_, 'vars': vars_, 'dir': dir_, 'id': id_,
    'hash': lambda it, a, k: Term('hash', it.freeze(a[0])),
    'repr': lambda it, a, k: to_repr(it, a[0]), 'ascii': lambda it, a, k: to_repr(it, a[0]),
    'format': lambda it, a, k: format_value(it, a[0], a[1] if len(a) > 1 else ''),
    'map': map_, 'filter': lambda it, a, k: Lazy('filter', *a), 'zip': lambda it, a, k: Lazy('zip', *a),
    'enumerate': lambda it, a, k: Lazy('enumerate', a[0], a[1] if len(a) > 1 else k.get('start', 0)),
    'reversed': lambda it, a, k: Lazy('reversed', a[0]),
    'abs': lambda it, a, k: abs(a[0]) if isinstance(a[0], (int, float)) else Term('int', 'abs', a[0]),
    'round': lambda it, a, k: round(*a) if all(isinstance(x, (int, float)) for x in a) else Term('int', 'round', a[0]),
    'ord': lambda it, a, k: ord(a[0]) if isinstance(a[0], str) else Term('int', 'ord', a[0]),
    'chr': lambda it, a, k: chr(a[0]) if isinstance(a[0], int) else Term('strop', 'chr', a[0]),
    'divmod': lambda it, a, k: (binop(it, 'FloorDiv', a[0], a[1], False), binop(it, 'Mod', a[0], a[1], False)),
    'pow': lambda it, a, k: binop(it, 'Pow', a[0], a[1], False),
    'locals': lambda it, a, k: it.frame_builtin('locals'), 'globals': lambda it, a, k: it.frame_builtin('globals'),
    'bin': lambda it, a, k: bin(a[0]), 'hex': lambda it, a, k: hex(a[0]) if isinstance(a[0], int) else Term('strop', 'hex', a[0]),
}


# ---- primitives for the framework models ------------------------------------------------------

def vp_event(it, args, kw):
    """event(name, *args, **kw) -> fresh unknown value"""
    ev = it.event(str(args[0]), args[1:], kw)
    res = Term('sym', '%s#%d' % (args[0], ev.uid), 'any')
    ev.result = res
    return res


def vp_note(it, args, kw):
    it.event(str(args[0]), args[1:], kw)
    return None


def vp_atom(it, args, kw):
    """Unknown choice, different each time."""
    return Term('atom', str(args[0]), it.uid()) if len(args) == 1 else Term('atom', str(args[0]), *[it.freeze(a) for a in args[1:]])


def vp_sym(it, args, kw):
    ty = args[1] if len(args) > 1 else 'any'
    return sym(args[0] if isinstance(args[0], str) else repr(args[0]), str(ty))


def vp_fresh(it, args, kw):
    ty = args[1] if len(args) > 1 else 'any'
    return sym('%s#%d' % (args[0], it.uid()), str(ty))


def vp_term(it, args, kw):
    return Term(str(args[0]), *[it.freeze(a) for a in args[1:]])


def vp_unsupported(it, args, kw):
    raise Unsupported(' '.join(str(a) for a in args))


def vp_config(it, args, kw):
    return it.config.get(str(args[0]), args[1] if len(args) > 1 else None)


def vp_isterm(it, args, kw):
    v = it.resolve(args[0])
    return isinstance(v, (Term, SStr))


def vp_shallow_copy(it, args, kw):
    o = it.resolve(args[0])
    r = it.rec(o)
    if isinstance(r, OInst):
        return it.alloc(OInst(r.cls, dict(r.attrs), r.site))
    if isinstance(r, OList):
        return it.new_list(r.items)
    if isinstance(r, ODict):
        return it.alloc(ODict(dict(r.d), r.open_, r.default))
    if isinstance(r, OSet):
        return it.alloc(OSet(dict(r.d), r.open_))
    return o


def vp_deepcopy(it, args, kw):
    memo = {}

    def go(v):
        v = it.resolve(v)
        if isinstance(v, Ite):
            return it.case(v, go)
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        if isinstance(v, Bound):
            return Bound(v.func, go(v.self_)) if isinstance(v.func, Ref) else v
        if not isinstance(v, Ref):
            return v
        if v.addr in memo:
            return memo[v.addr]
        r = it.get(v)
        if isinstance(r, OInst):
            dc = it.class_lookup(r.cls, '__deepcopy__')
            if dc is not None:
                md = it.new_dict()
                n = it.call(it.bind(dc[0], v, r.cls), [md], {})
                memo[v.addr] = n
                return n
            n = it.alloc(OInst(r.cls, {}, r.site))
            memo[v.addr] = n
            it.set(n, OInst(r.cls, {k: (go(x) if x is not ABSENT else x) for k, x in r.attrs.items()}, r.site))
            return n
        if isinstance(r, OList):
            n = it.new_list(())
            memo[v.addr] = n
            it.set(n, OList([go(x) if not isinstance(x, (SegOpt, SegFor)) else x for x in r.items]))
            return n
        if isinstance(r, ODict):
            n = it.new_dict()
            memo[v.addr] = n
            it.set(n, ODict({k: (kk, go(x)) for k, (kk, x) in r.d.items()}, r.open_, r.default))
            return n
        if isinstance(r, OSet):
            return it.alloc(OSet(dict(r.d), r.open_))
        return v
    return go(args[0])


def vp_new(it, args, kw):
    """Instance of a class without running its constructor."""
    return it.alloc(OInst(args[0], {}, it.sites()))


def vp_defaultdict(it, args, kw):
    d = it.new_dict()
    r = it.get(d)
    it.set(d, ODict(r.d, None, args[0] if args else None))
    dict_update(it, [d] + list(args[1:]), kw)
    return d


def vp_contextmanager(it, args, kw):
    """contextlib.contextmanager"""
    fn = args[0]

    def make(it_, a, k):
        g = it_.call(fn, a, k)
        return it_.alloc(OInst(it_.natives['object'], {'__gen__': g}, it_.sites()))
    b = Builtin('contextmanager', make)
    make.is_method = True
    return b


def vp_opaque(it, args, kw):
    return sym(str(args[0]), 'obj')


def vp_names_of(it, args, kw):
    return it.config['real_names'](str(args[0]))


def vp_getsite(it, args, kw):
    return it.sites()


def vp_classname(it, args, kw):
    return it.get(it.type_of(it.resolve(args[0]))).name


def vp_setting(it, args, kw):
    """A project setting, or AttributeError."""
    name = str(args[0])
    vals = it.config.get('settings') or {}
    it.config.setdefault('settings_read', set()).add(name)
    if name in vals:
        return host_value(it, vals[name])
    if name in DEFAULT_SETTINGS:
        return host_value(it, DEFAULT_SETTINGS[name])
    it.throw('AttributeError', "'Settings' object has no attribute '%s'" % name)


DEFAULT_SETTINGS = {'DEBUG': False, 'ABSOLUTE_URL_OVERRIDES': {}, 'DEFAULT_TABLESPACE': '', 'DEFAULT_INDEX_TABLESPACE': '',
                    'USE_TZ': False, 'LANGUAGE_CODE': 'en-us', 'MIDDLEWARE': []}


def host_value(it, v):
    if isinstance(v, dict):
        return it.new_dict([(k, host_value(it, x)) for k, x in v.items()])
    if isinstance(v, list):
        return it.new_list([host_value(it, x) for x in v])
    if isinstance(v, tuple):
        return tuple(host_value(it, x) for x in v)
    return v


def vp_quote_name(it, args, kw):
    alias, name = it.resolve(args[0]), it.resolve(args[1])
    if isinstance(name, Ite):
        return it.case(name, lambda u: vp_quote_name(it, [alias, u], kw))
    if name is None:
        it.throw('AttributeError', "'NoneType' object has no attribute 'startswith'")
    if isinstance(name, Term) and name.op == 'qn':
        return name
    if isinstance(name, Ref) or isinstance(name, int):
        it.throw('AttributeError', 'quote_name of a value that is not a string')
    return Term('qn', alias, name)


def vp_rows(it, args, kw):
    return Term('rows', it.freeze(args[0]))


def vp_row_value(it, args, kw):
    return Term('attr', it.freeze(args[0]), str(args[1]))


def vp_nonnull(it, args, kw):
    if isinstance(args[0], Term):
        facts = dict(it.st.facts)
        add_fact(facts, Term('is', args[0], None), False)
        it.st.facts = facts
    return None


def vp_raise_named(it, module, name, msg):
    cls = it.getattr(it.import_module(module), name)
    it.raise_(it.call(cls, [msg], {}))


def vp_db_fault(it, args, kw):
    if not it.config.get('db_faults'):
        return None
    c = Term('atom', 'db.fault', str(args[0]), it.uid())

    def fail():
        it.event('db.fail', (str(args[0]),))
        cls = it.config['db_faults']
        vp_raise_named(it, 'django.db.utils', cls if isinstance(cls, str) else 'DatabaseError', 'database error')
    it.fork(c, fail, lambda: None)
    return None


def vp_interrupt(it, args, kw):
    if not it.config.get('interrupts'):
        return None

    def fail():
        it.event('interrupt', (str(args[0]),))
        it.throw('KeyboardInterrupt')
    it.fork(Term('atom', 'interrupt', str(args[0]), it.uid()), fail, lambda: None)
    return None


def vp_user_fault(it, args, kw):
    if not it.config.get('user_faults'):
        return None
    c = Term('atom', 'user.fault', str(args[0]), it.uid())
    def fail():
        it.event('user.fail', tuple(it.freeze(a) for a in args))
        cls = it.config['user_faults']
        if isinstance(cls, str) and not cls.startswith('builtins:'):
            vp_raise_named(it, *cls.split(':'), 'error in user code')
        if isinstance(cls, str):
            it.throw(cls.split(':')[1], 'error in user code')
        it.throw('RuntimeError', 'error in user code')
    it.fork(c, fail, lambda: None)
    return None


ENGINES = {'sqlite': 'django.db.backends.sqlite3', 'mysql': 'django.db.backends.mysql',
           'postgresql': 'django.db.backends.postgresql'}


def vp_settings_dict(it, args, kw):
    d = {'ENGINE': it.config.get('engine') or ENGINES[it.config.get('backend', 'sqlite')], 'NAME': 'db'}
    d.update(it.config.get('database', {}))
    return host_value(it, d)


def vp_file(it, args, kw):
    return it.call(it.getattr(it.import_module('io'), '_File'), list(args), {})


def open_(it, args, kw):
    return it.call(it.getattr(it.import_module('io'), 'open'), list(args), kw)


FUNCS['open'] = open_


VP = {'event': vp_event, 'note': vp_note, 'atom': vp_atom, 'sym': vp_sym, 'fresh': vp_fresh, 'term': vp_term,
      'unsupported': vp_unsupported, 'config': vp_config, 'isterm': vp_isterm, 'copy': vp_shallow_copy,
      'deepcopy': vp_deepcopy, 'new': vp_new, 'defaultdict': vp_defaultdict, 'contextmanager': vp_contextmanager,
      'opaque': vp_opaque, 'import_module': import_module_,
      'chain': lambda it, a, k: Lazy('chain', *a), 'chain_from': lambda it, a, k: Lazy('chain_from', a[0]),
      'starmap': lambda it, a, k: Lazy('starmap', *a), 'count': lambda it, a, k: Lazy('count', *a),
      'repeat': lambda it, a, k: Lazy('repeat', a[0]) if len(a) == 1 else it.new_list([a[0]] * a[1]),
      'islice': lambda it, a, k: Lazy('islice', *a),
      'classname': vp_classname, 'setting': vp_setting, 'quote_name': vp_quote_name, 'rows': vp_rows,
      'iter_rows': vp_rows, 'row_value': vp_row_value, 'nonnull': vp_nonnull, 'db_fault': vp_db_fault, 'user_fault': vp_user_fault,
      'settings_dict': vp_settings_dict, 'interrupt': vp_interrupt, 'file': vp_file}
