"""Flushing: what happens to each marker, and when a flush ends."""
from ..core import NoVerdict, proj_sites
from ..interp import Ev, IfEv, StarEv, Unsupported, decide, trace_list
from ..traces import linear, paths, pick, where, functions, leaves
from ..values import Term, Ite
from ..sqlparse import show_text

MARKER = 'denorm.DirtyInstance'
READS = ('fetch', 'iterator', 'exists', 'count', 'first', 'last', 'get', 'getitem', 'repr')
UNRESTRICTED = ('distinct', 'order_by', 'reverse', 'values', 'only', 'defer', 'select_for_update')
FAULTS = ('builtins:RuntimeError', 'builtins:NotImplementedError', 'builtins:AttributeError', 'builtins:ValueError',
          'builtins:KeyError', 'builtins:TypeError', 'django.db.utils:DatabaseError', 'django.db.utils:IntegrityError',
          'django.core.exceptions:ObjectDoesNotExist', 'django.core.exceptions:ValidationError')

R_END = 'ends-empty'
R_SAVE = 'save-before-forget'
R_SCOPE = 'forgets-only-handled'
R_ALL = 'each-marker-handled'
R_FAIL = 'failed-save-keeps-marker'


def flush(ctx):
    ctx.rule(R_END, 'every way of returning from a flush ends with a read of the whole marker table that found nothing, with no save after it')
    ctx.rule(R_SAVE, 'a marker is deleted only after its object was looked up among all rows and, where it exists, saved in full')
    ctx.rule(R_SCOPE, 'a deletion of markers is restricted to the content type and object id, or the key, of the marker being handled')
    ctx.rule(R_ALL, 'every marker read is deleted once handled, also when its object does not exist')
    ctx.rule(R_FAIL, 'after a failed save no marker of that object is deleted')
    cases = [(b, v, f, db) for b in ('sqlite', 'mysql', 'postgresql') for v in (False, True)
             for f, db in ((None, False), (None, True))]
    cases += [(b, False, f, False) for b in ('sqlite', 'postgresql') for f in FAULTS]
    ctx.parallel(lambda c: case(ctx, *c), cases)


def case(ctx, backend, verbose, fault, db_faults):
    def run(it, x):
        f = it.getattr(it.import_module('denorm'), 'flush')
        return it.call(f, [], {'verbose': True} if verbose else {})
    x = ctx.extraction('fwd', backend, config={'user_faults': fault, 'db_faults': db_faults}, run=run)
    name = 'flush/%s' % backend
    allow = []
    if fault:
        allow.append(fault.split(':')[1])
    if db_faults:
        allow.append('DatabaseError')
    r = ctx.ok_result(x, 'flushing', name, allow=allow)
    if r is None and not ctx.findings:
        raise NoVerdict('a flush never returns (%s)' % name)
    here = functions(x.it, 'flush')
    for res in x.results:
        for p in paths(res):
            if res.kind == 'return':
                ends(ctx, p, name, here)
            sequences(ctx, p.events, p.facts, name, here, None, marker_loops(p.events, set(), set()))


# ---- how a flush ends -----------------------------------------------------------------------------

def is_read(e):
    return isinstance(e, Ev) and e.name == 'db' and e.args[0] in READS and e.args[1] == MARKER


def found_nothing(e, facts):
    r = e.result
    for c, v in facts.items():
        if not isinstance(c, Term):
            continue
        if c.op == 'atom' and c.args[0] in ('nonempty', 'hasrow') and c.args[1] == r and v is False:
            if c.args[0] == 'nonempty' or c.args[2] == 0:
                return True
        n = counted(c, r)
        if n and v is n[1]:
            return True
    return False


def counted(c, r):
    """(condition, value) for conditions on the number of rows that hold only for none."""
    size = (Term('int', 'count', r), Term('len', r))
    if c.op == 'truth' and c.args[0] in size:
        return c, False
    if c.op == 'eq' and len(c.args) == 2 and 0 in c.args and any(a in size for a in c.args if isinstance(a, Term)):
        return c, True
    if c.op == 'lt':
        a, b = c.args
        if isinstance(a, Term) and a in size and b == 1:
            return c, True
        if isinstance(b, Term) and b in size and a == 0:
            return c, False
    return None


def saves(e):
    if isinstance(e, StarEv):
        return any(saves(b) for b in e.body or ())
    if isinstance(e, IfEv):
        return any(saves(b) for b in tuple(e.a) + tuple(e.b))
    return isinstance(e, Ev) and (e.name in ('save', 'save_base') or (e.name == 'db' and e.args[0] in ('row_insert', 'bulk_create') and e.args[1] == MARKER))


def ends(ctx, p, name, here):
    ctx.ob(R_END)
    ok = None
    near = None
    for e in p.events:
        if is_read(e):
            near = e
            restricted = [op for op in e.args[3] if op[0] not in UNRESTRICTED]
            if not restricted and e.args[2] == 'default' and found_nothing(e, p.facts):
                ok = e
        elif saves(e):
            ok = None
    if ok is None:
        ctx.finding('%s:%s' % (R_END, name), 'a flush can return without having seen the whole marker table empty', where(near) if near else here)
    else:
        ctx.sample('%s: returns after read at %s found nothing' % (name, where(ok)[0] if where(ok) else '?'))


# ---- what happens to each marker ------------------------------------------------------------------

def sequences(ctx, events, facts, name, here, loop, reads):
    """Checks one straight sequence of events and, recursively, the loop bodies in it."""
    straight(ctx, [e for e in events if isinstance(e, Ev)], facts, name, here, loop, reads)
    for e in events:
        if isinstance(e, StarEv):
            for sub, f in linear(e.body or (), {}):
                sequences(ctx, sub, f, name, here, e, reads)


def deletes(e):
    return e.name == 'db' and e.args[0] in ('delete', 'instance_delete') and e.args[1] == MARKER


def row_of(v, names):
    """The row a value is an attribute of."""
    if isinstance(v, Term) and v.op == 'attr' and v.args[1] in names:
        return v.args[0]
    return None


def target(ctx, e, name):
    """The marker row a deletion is about, or None (reported)."""
    if e.args[0] == 'instance_delete':
        k = e.args[4]
        if isinstance(k, Term) and k.op == 'key':
            return k.args[0]
        raise NoVerdict('which marker is deleted is unknown (%s)' % (where(e),))
    ct = oid = key = None
    for op in e.args[3]:
        if op[0] in ('order_by', 'distinct'):
            continue
        if op[0] != 'filter':
            raise NoVerdict('unexpected restriction %s of a marker deletion' % op[0])
        for cond in op[1]:
            if not (isinstance(cond, tuple) and len(cond) == 2 and isinstance(cond[0], str)):
                raise NoVerdict('unexpected condition of a marker deletion: %r' % (cond,))
            k, v = cond
            if k.endswith('__exact'):
                k = k[:-7]
            if k in ('content_type_id', 'content_type', 'content_type__id', 'content_type__pk'):
                ct = v
            elif k == 'object_id':
                oid = v
            elif k in ('id', 'pk'):
                key = v
            elif k in ('content_type__in', 'object_id__in', 'pk__in', 'id__in', 'content_type_id__in'):
                raise NoVerdict('deletion of several markers at once')
            else:
                ctx.finding('%s:%s:cond' % (R_SCOPE, name), 'markers are deleted under a condition on %s' % k, where(e))
                return None
    if key is not None:
        if isinstance(key, Term) and key.op == 'key':
            return key.args[0]
        ctx.finding('%s:%s:key' % (R_SCOPE, name), 'markers are deleted by a key that is not the key of the marker being handled', where(e))
        return None
    a, b = row_of(ct, ('content_type_id',)), row_of(oid, ('object_id',))
    if a is None or b is None or a != b:
        miss = [n for n, v in (('content type', a), ('object id', b)) if v is None]
        ctx.finding('%s:%s' % (R_SCOPE, name), 'markers are deleted without being restricted to the %s of the marker being handled' % ' and '.join(miss or ['same row']), where(e))
        return None
    return a


def straight(ctx, events, facts, name, here, loop, reads):
    looked = {}
    saved = set()
    failed = set()
    done = set()
    for e in events:
        if e.name == 'db' and e.args[0] == 'object':
            how, ct, cond = e.args[1], e.args[2], e.args[3]
            row = row_of(ct, ('content_type_id',))
            if row is not None and len(cond) == 1 and row_of(cond[0][1], ('object_id',)) == row:
                looked.setdefault(row, []).append((e.result, how, cond[0][0], e))
        elif e.name == 'save':
            label, args, kw = e.args
            full = not args and all(k == 'using' or not v for k, v in kw[2:] if k != 'force_update')
            if full:
                saved.add(label)
                failed.discard(label)
            else:
                ctx.finding('%s:%s:partial' % (R_SAVE, name), 'a marked object is saved only in part, or not as an update', where(e))
        elif e.name == 'save_base':
            ctx.finding('%s:%s:base' % (R_SAVE, name), 'a marked object is saved past its save method', where(e))
        elif e.name == 'user.fail':
            failed.add(e.args[1])
        elif deletes(e):
            ctx.ob(R_SCOPE)
            row = target(ctx, e, name)
            if row is None:
                continue
            ctx.ob(R_SAVE)
            done.add(row)
            found = looked.get(row, ())
            for label, how, by, at in found:
                ctx.ob(R_FAIL)
                if label in failed:
                    ctx.finding('%s:%s' % (R_FAIL, name), 'the marker of an object whose save failed is deleted', where(e))
                    break
                if how != 'base':
                    ctx.finding('%s:%s:manager' % (R_SAVE, name), 'marked objects are looked up through a manager that may hide rows', where(at))
                if by != 'pk':
                    ctx.finding('%s:%s:lookup' % (R_SAVE, name), 'marked objects are looked up by %s instead of their primary key' % by, where(at))
                if decide(facts, Term('atom', 'hasrow', label, 0)) is not False and label not in saved:
                    ctx.finding('%s:%s:unsaved' % (R_SAVE, name), 'a marker is deleted although its object exists and has not been saved', where(e))
                    break
            if not found and not no_object(row, facts):
                ctx.finding('%s:%s:unseen' % (R_SAVE, name), 'a marker is deleted without looking up its object first', where(e))
    for row, found in looked.items():
        for label, how, by, at in found:
            ctx.ob(R_ALL)
            if loop is not None and row not in done and not (label in failed):
                ctx.finding('%s:%s' % (R_ALL, name), 'a marker stays although its object was handled', where(at))
    if loop is not None and loop.loop in reads and not builds_list(loop) and not done and not failed and not repeated(facts):
        ctx.ob(R_ALL)
        ctx.finding('%s:%s:skipped' % (R_ALL, name), 'a marker that was read is passed over', here)


def no_object(row, facts):
    for n in ('content_type_id', 'object_id'):
        if decide(facts, Term('is', Term('attr', row, n), None)) is True:
            return True
    return False


def repeated(facts):
    """The same object has been handled earlier in this pass (membership in a collection of handled pairs)."""
    for c, v in facts.items():
        if isinstance(c, Term) and v is True and c.op == 'in':
            ns = set(x.args[1] for x in terms(c.args[0]) if x.op == 'attr')
            if ns >= set(('content_type_id', 'object_id')) or any(x.op == 'key' for x in terms(c.args[0])):
                return True
    return False


def terms(v):
    if isinstance(v, tuple):
        return [t for x in v for t in terms(x)]
    if isinstance(v, Term):
        return [v]
    return []


def marker_loops(events, reads, loops):
    """Ids of the loops over rows of the marker table, or over lists made from them."""
    for e in events:
        if isinstance(e, StarEv):
            src = e.info[1]
            if isinstance(src, Term) and (src.op == 'rows' and src.args[0] in reads or src.op == 'seg' and src.args[0] in loops):
                loops.add(e.loop)
            marker_loops(e.body or (), reads, loops)
        elif isinstance(e, IfEv):
            marker_loops(e.a, reads, loops)
            marker_loops(e.b, reads, loops)
        elif is_read(e):
            reads.add(e.result)
    return loops


def builds_list(loop):
    """A loop without any effect only collects the markers."""
    return not loop.body


# ---- rebuilding -----------------------------------------------------------------------------------

R_MARK = 'marks-every-row'
R_ONLY = 'marks-only-selected'
R_FLUSH = 'then-flushes'

SELECTORS = (None, 'one', 'two', 'Item', 'Box', 'Conc', 'Conc2', 'Keyed', 'Tagged', 'Plain', 'Child', 'Other', 'Base',
             'one.Item', 'two.Item', 'one.two', 'one.Conc2', 'two.Conc', 'one.Plain', 'two.Box', 'three', 'Ite', 'one.', 'on', 'one.Item2', 'item', 'ONE', 'one.item', 'two.Priced')
FIELDS = (None, 'val', 'val2', 'num', 'shared', 'key', 'tags', 'plain', 'plain_id', 'hidden', 'interval', 'va', 'VAL')


def rebuild(ctx):
    ctx.rule(R_MARK, 'for each selected model a loop over all of its rows (no manager in between) inserts a marker with the content type of the model and the key of the row')
    ctx.rule(R_ONLY, 'no marker is inserted for a model that is not selected')
    ctx.rule(R_FLUSH, 'after the markers the flush runs until it has seen the marker table empty')
    cases = [(s, None) for s in SELECTORS] + [(None, f) for f in FIELDS[1:]]
    cases += [(s, f) for s in ('one', 'two', 'Item', 'one.Item') for f in ('val', 'val2', 'shared')]
    ctx.parallel(lambda c: rebuild_case(ctx, *c), cases)


def rebuild_case(ctx, sel, field, backend='sqlite'):
    extra = {}

    def run(it, x):
        d = it.getattr(it.import_module('shapes.rebuild'), 'DECLARED')
        extra['declared'] = it.freeze(d)
        f = it.getattr(it.import_module('denorm'), 'rebuildall')
        kw = {}
        if sel is not None:
            kw['model_name'] = sel
        if field is not None:
            kw['field_name'] = field
        if sel == 'two':
            kw['verbose'] = True
        return it.call(f, [], kw)
    x = ctx.extraction('rebuild', backend, run=run)
    name = 'rebuild'
    declared = dict(extra['declared'][2:])
    if len(declared) < 5:
        raise NoVerdict('model set without declarations')
    want = set()
    for label, fields in declared.items():
        app, model = label.split('.')
        if sel in (None, app, model, label) and (field is None or field in fields):
            want.add(label)
    what = 'rebuild of %s%s' % (sel or 'everything', ' field %s' % field if field else '')
    r = ctx.ok_result(x, what, name)
    here = functions(x.it, 'rebuildall')
    if r is None:
        return
    for p in paths(r):
        ctx.ob(R_FLUSH)
        ends_rebuild(ctx, p, name, here, what)
        marked = {}
        sources(p.events, p.facts, {}, {}, marked, ())
        for label in sorted(want):
            ctx.ob(R_MARK)
            if label not in marked:
                ctx.finding('%s:%s' % (R_MARK, label), '%s does not mark the rows of %s' % (what, label), here)
            elif not any(full(m, label) for m in marked[label]):
                why = marked[label][0]
                ctx.finding('%s:%s:some' % (R_MARK, label), '%s does not mark every row of %s: %s' % (what, label, reason(why, label)), where(why[0]))
        for label in sorted(set(marked) - want):
            ctx.finding('%s:%s' % (R_ONLY, label), '%s marks rows of %s as well' % (what, label), where(marked[label][0][0]))
        ctx.ob(R_ONLY, len(declared) - len(want))


def ends_rebuild(ctx, p, name, here, what):
    """Markers first, then reads until the table was seen empty."""
    ok = None
    for e in p.events:
        if is_read(e):
            if not [op for op in e.args[3] if op[0] not in UNRESTRICTED] and found_nothing(e, p.facts):
                ok = e
        elif saves(e):
            ok = None
    if ok is None:
        ctx.finding('%s:%s' % (R_FLUSH, name), '%s can end without a complete flush after marking' % what, here)


def sources(events, facts, queries, loops, marked, around):
    """Marker insertions with the query whose rows they are about and the loops and conditions around them."""
    for e in events:
        if isinstance(e, Ev):
            if e.name == 'db' and e.args[0] in READS:
                queries[e.result] = e
            elif e.name == 'db' and e.args[0] == 'row_insert' and e.args[1] == MARKER:
                vals = dict(e.args[4])
                ct, oid = vals.get('content_type'), vals.get('object_id')
                label = ct.args[0] if isinstance(ct, Term) and ct.op == 'ct' else None
                if label is None:
                    raise NoVerdict('the content type of a marker is unknown: %r' % (ct,))
                marked.setdefault(label, []).append((e, oid, around, queries))
        elif isinstance(e, StarEv):
            sources(e.body or (), facts, queries, loops, marked, around + (e,))
        elif isinstance(e, IfEv):
            d = decide(facts, e.c)
            if d is not False:
                sources(e.a, facts, queries, loops, marked, around + ((e.c,) if d is None else ()))
            if d is not True:
                sources(e.b, facts, queries, loops, marked, around + ((e.c,) if d is None else ()))


def reason(m, label):
    e, oid, around, queries = m
    if not (isinstance(oid, Term) and oid.op == 'key'):
        return 'the marker does not hold the key of the row'
    q = source_query(oid, queries, around)
    if q is None:
        return 'the rows are not read from the table'
    if q.args[1] != label:
        return 'rows of %s are read instead' % q.args[1]
    if q.args[3]:
        return 'the rows are restricted (%s)' % ', '.join(str(op[0]) for op in q.args[3])
    if any(not isinstance(a, StarEv) for a in around):
        return 'rows are left out under a condition'
    return 'unknown'


def source_query(oid, queries, around):
    row = oid.args[0]
    if isinstance(row, Term) and row.op == 'elem' and isinstance(row.args[0], Term) and row.args[0].op == 'rows':
        return queries.get(row.args[0].args[0])
    return None


def full(m, label):
    e, oid, around, queries = m
    if not (isinstance(oid, Term) and oid.op == 'key'):
        return False
    q = source_query(oid, queries, around)
    if q is None or q.args[1] != label or q.args[0] not in ('fetch', 'iterator') or q.args[2] != 'default':
        return False
    if [op for op in q.args[3] if op[0] not in UNRESTRICTED]:
        return False
    return not any(not isinstance(a, StarEv) for a in around)
