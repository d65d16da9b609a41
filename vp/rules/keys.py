"""Cache keys (C06)."""
from ..core import BACKENDS, NoVerdict
from ..sqlparse import SqlError
from ..sqlsem import Fresh
from ..traces import paths, functions
from ..values import Term
from .aggregates import after_begin
from ..worlds import row, row_ops, apply, pk, changed, show_op, show_value, PAIRS
from .marks import ct, blame, generic_columns, statement_text, KEYPAIRS

LO, HI, WIDE = -2.0 ** 63, 2.0 ** 63, 2.0 ** 62
FORWARD = ('forward', 'late', 'o2o', 'many', 'fkeys', 'fcode', 'fstrict', 'fself')
BACKWARD = ('backward', 'bo2o', 'bkeys', 'bcode', 'bstrict', 'bself', 'many')
M2M = {'m2m': ('app.Item_tags', 'item_id', 'tag_id'), 'mkeys': ('app.Item_tags', 'item_id', 'tag_id'),
       'mstrict': ('app.Item_tags', 'item_id', 'tag_id'), 'mbkeys': ('app.Tag_items', 'item_id', 'tag_id'),
       'mbself': ('app.Item_links', 'to_item_id', 'from_item_id'),
       'mback': ('app.Tag_items', 'item_id', 'tag_id'), 'mself': ('app.Item_links', 'from_item_id', 'to_item_id'),
       'through': ('app.Link', 'thing_id', 'label_id')}
R_KEY = 'related rows get a fresh key'
R_SAVE = 'saving assigns a fresh key'


def cache_keys(ctx):
    ctx.rule(R_KEY, 'the rows whose key column a trigger assigns are exactly the declaring rows related to the changed row, and the assigned value is a random 64-bit number')
    ctx.rule(R_SAVE, 'every value written for the key column by a save comes from a random generator over 64 bits and is the one the instance holds afterwards')
    cases = []
    for backend in BACKENDS:
        for kind in ('key', 'cached'):
            for v in sorted(set(FORWARD + BACKWARD) | set(M2M)) + ['generic', 'gnamed']:
                cases.append((backend, kind, v))
    ctx.parallel(lambda c: case(ctx, *c), cases)
    for kind in ('key', 'cached'):
        for v in ('alone', 'forward', 'generic'):
            saves(ctx, kind, v)


def case(ctx, backend, kind, variant):
    prog = ctx.program('ck', backend, config={'variant': variant, 'kind': kind})
    if prog is None:
        return
    name = '%s/%s/%s' % (backend, kind, variant)
    item = prog.schema['app.Item']
    k = pk(item)
    if variant in FORWARD:
        other = item if variant == 'fself' else prog.schema['app.Owner']
        o = pk(other)
        if variant == 'fself':
            w = {'app.Item': [row(item, id=1), row(item, id=2, owner_id=1), row(item, id=3, owner_id=7), row(item, id=4, owner_id=9), row(item, id=5, owner_id=7)]}
            doms = {'owner_id': [(x, y) for x in (None, 1, 7) for y in (None, 1, 7)], 'note': PAIRS, 'key': PAIRS}
        else:
            w = {'app.Owner': [row(other, **{o: 1}), row(other, **{o: 2})],
                 'app.Item': [row(item, **{k: 11, 'owner_id': 1}), row(item, **{k: 12, 'owner_id': 2}), row(item, **{k: 13}),
                              row(item, **{k: 14, 'owner_id': 1}), row(item, **{k: 15, 'owner_id': 3}), row(item, **{k: 1, 'owner_id': 2}), row(item, **{k: 3})]}
            if 'first_id' in item.by_att:
                for r, v in zip(w['app.Item'], (2, 1, 1, 3, 2, 1, 3)):
                    r['first_id'] = v
            doms = {c.attname: PAIRS for c in other.cols if not c.pk}
            if variant == 'fcode':
                # the foreign key holds codes, which differ from the keys
                for r, v in zip(w['app.Owner'], (2, 3)):
                    r['code'] = v
                doms['code'] = [(1, 1), (2, 2), (3, 3)]
        if variant == 'many':
            w['app.Child'] = [row(prog.schema['app.Child'], id=1, parent_id=12)]
        for wb, event, old, new in row_ops(w, other, doms, 7 if variant == 'fself' else 1, 9 if variant == 'fself' else 3):
            if event == 'update' and not changed(old, new):
                continue
            target = (new or old)['code' if variant == 'fcode' else o]
            before = set(r[k] for r in wb['app.Item'] if r['owner_id'] == target)
            if variant == 'fself':
                after = set(before)
                after.discard(target)
                if new is not None and new['owner_id'] == target:
                    after.add(target)
                exp, allowed = before & after, before | after
                if event != 'delete':
                    exp = after
            else:
                exp = allowed = before
            judge(ctx, prog, name, other, wb, event, old, new, {'app.Item': (exp, allowed)})
    if variant in BACKWARD:
        other = item if variant == 'bself' else prog.schema['app.Child']
        if variant == 'bself':
            w = {'app.Item': [row(item, id=i) for i in (1, 2, 5)] + [row(item, id=6, parent_id=7), row(item, id=8, parent_id=9)]}
        else:
            w = {'app.Item': [row(item, **{k: i}) for i in (1, 2, 5)],
                 'app.Child': [row(other, **{pk(other): 1, 'parent_id': 2}), row(other, **{pk(other): 2, 'parent_id': 5})]}
            if variant == 'many':
                w['app.Owner'] = [row(prog.schema['app.Owner'], id=1)]
        doms = {c.attname: KEYPAIRS if c.attname in ('parent_id', 'other_id') else PAIRS for c in other.cols if not c.pk}
        named = {i: i for i in (1, 2, 5)}
        if variant == 'bcode':
            # the foreign key holds codes, which differ from the keys
            named = {2: 1, 1: 5, 5: 2}
            for r in w['app.Item']:
                r['code'] = [c for c in named if named[c] == r[k]][0]
        elif variant == 'bstrict':
            doms['parent_id'] = [p for p in KEYPAIRS if None not in p]
        for wb, event, old, new in row_ops(w, other, doms, 7, 9):
            if event == 'update' and not changed(old, new):
                continue
            exp = set(named.get(r['parent_id'], r['parent_id']) for r in (old, new) if r is not None and r['parent_id'] is not None)
            judge(ctx, prog, name, other, wb, event, old, new, {'app.Item': (exp, exp)})
    if variant in M2M:
        link, a, b = M2M[variant]
        link = prog.schema[link]
        tag = item if variant in ('mself', 'mbself') else prog.schema['app.Tag']
        kt, kl = pk(tag), pk(link)
        w = {'app.Item': [row(item, **{k: i}) for i in (1, 2, 3, 4)]}
        if variant not in ('mself', 'mbself'):
            w['app.Tag'] = [row(tag, **{kt: i}) for i in (1, 2, 3)]
        w[link.label] = [row(link, **{kl: 31, a: 1, b: 2}), row(link, **{kl: 32, a: 2, b: 1}), row(link, **{kl: 33, a: 3, b: 1}), row(link, **{kl: 34, a: 1, b: 3}),
                         row(link, **{kl: 1, a: 4, b: 2})]
        three = [(x, y) for x in (1, 2, 3) for y in (1, 2, 3)]
        for wb, event, old, new in row_ops(w, link, {a: three, b: three}, 37, 38):
            if event == 'update' and not changed(old, new):
                continue
            exp = set(r[a] for r in (old, new) if r is not None)
            judge(ctx, prog, name, link, wb, event, old, new, {'app.Item': (exp, exp)})
        doms = {c.attname: PAIRS for c in tag.cols if not c.pk}
        for key in (1, 2, 3):
            for wb, event, old, new in row_ops(w, tag, doms, key, 9):
                if event != 'update' or not changed(old, new):
                    continue
                exp = set(r[a] for r in wb[link.label] if r[b] == key)
                judge(ctx, prog, name, tag, wb, event, old, new, {'app.Item': (exp, exp)})
    if variant in ('generic', 'gnamed'):
        com = prog.schema['app.Comment']
        cts = [ct('app.Item'), ct('app.Thing'), ct('app.Other'), None]
        t, o, fixed = generic_columns(com, cts)
        doms = {t: [(x, y) for x in cts for y in cts], o: KEYPAIRS, 'text': PAIRS}
        w = {'app.Comment': [row(com, **{'id': 1, t: cts[0], o: 2}), row(com, **{'id': 2, t: cts[1], o: 1})],
             'app.Item': [row(prog.schema['app.Item'], id=i) for i in (1, 2, 7)], 'app.Thing': [row(prog.schema['app.Thing'], id=i) for i in (1, 2, 7)]}
        for wb, event, old, new in row_ops(w, com, doms, 7, 8, fixed):
            if event == 'update' and not changed(old, new):
                continue
            want = {}
            for label in ('app.Item', 'app.Thing'):
                exp = set(r[o] for r in (old, new) if r is not None and r[t] == ct(label) and r[o] is not None)
                want[label] = (exp, set(r[o] for r in (old, new) if r is not None))
            judge(ctx, prog, name, com, wb, event, old, new, want)


def judge(ctx, prog, name, t, w, event, old, new, want):
    ctx.ob(R_KEY, len(want))
    key = '%s:%s:%s:%s' % (R_KEY, name, t.label, event)
    try:
        w2, eff = apply(prog, w, t, event, old, new)
    except SqlError as e:
        ctx.finding(key + ':error', 'on %s the %s trigger of %s fails: %s' % (name, event, t.label, e),
                    [e.src] + blame(prog, t, event, None, None), statement_text(prog, t, event))
        return
    got = {label: set() for label in want}
    op = show_op(t, event, old, new)
    text = statement_text(prog, t, event)
    for label, r, col, a, b, s in eff.updates:
        locs = [s.src] + blame(prog, t, event, eff, None)
        if label not in want or col != 'key':
            ctx.finding('%s:column:%s.%s' % (key, label, col), '%s changes column %s of %s (%s)' % (op, col, label, name), locs, text)
            continue
        got[label].add(r[pk(prog.schema[label])])
        if not isinstance(b, Fresh):
            ctx.finding(key + ':value', '%s sets the key of %s to %s, which is not random (%s)' % (op, label, b, name), locs, text)
        elif b.lo < LO or b.hi > HI:
            ctx.finding(key + ':range', 'the random key %r does not fit into 64 bits (%s)' % (b, name), locs, text)
        elif b.hi - b.lo < WIDE:
            ctx.finding(key + ':narrow', 'the random key %r uses only a small part of the 64-bit range (%s)' % (b, name), locs, text)
    if eff.marks or eff.inserts or eff.deletes:
        ctx.finding(key + ':effects', '%s has effects other than new keys (%s)' % (op, name), blame(prog, t, event, eff, None), text)
    for label, (exp, allowed) in want.items():
        missing, extra = exp - got[label], got[label] - exp - allowed
        if missing:
            ctx.finding(key + ':missing', '%s leaves the key of %s row(s) %s unchanged (%s)' % (
                op, label, ', '.join(map(show_value, sorted(missing, key=str))), name), blame(prog, t, event, eff, None), text)
        if extra:
            ctx.finding(key + ':extra', '%s changes the key of unrelated %s row(s) %s (%s)' % (
                op, label, ', '.join(map(show_value, sorted(extra, key=str))), name), blame(prog, t, event, eff, None), text)
    ctx.sample('%s %s: new keys for %s' % (name, op, {l: sorted(g, key=str) for l, g in got.items()}))


# ---- saving ----------------------------------------------------------------------------------------

def random_range(v):
    """(lo, hi) of a value drawn at random, else None."""
    if isinstance(v, Term) and v.op == 'int' and v.args[0] == 'random':
        return v.args[1], v.args[2]
    if isinstance(v, Term) and v.op in ('add', 'sub') and len(v.args) == 2:
        for i in (0, 1):
            r = random_range(v.args[i])
            n = v.args[1 - i]
            if r and isinstance(n, int):
                if v.op == 'add':
                    return r[0] + n, r[1] + n
                if i == 0:
                    return r[0] - n, r[1] - n
                return n - r[1], n - r[0]
    return None


def saves(ctx, kind, variant):
    for how in ('new', 'keyed', 'loaded', 'loaded+'):
        for kw in ({}, {'force_insert': True}, {'force_update': True}):
            if how == 'new' and 'force_update' in kw or how.startswith('loaded') and 'force_insert' in kw:
                continue
            name = '%s/%s/%s%s' % (kind, variant, how, ''.join('/' + x for x in kw))

            def run(it, x):
                d = it.import_module('shapes.drive')
                m = it.getattr(it.import_module('shapes.ck'), 'Item')
                return it.call(it.getattr(d, 'save'), [m, how, it.new_list(['key'])], dict(kw))
            x = ctx.extraction('ck', 'sqlite', config={'variant': variant, 'kind': kind}, run=run)
            r = ctx.ok_result(x, 'saving a row with a cache key', 'save/' + name, allow=('DatabaseError',))
            if r is None:
                continue
            n = 0
            for p in paths(r, args=True):
                last = None
                used = [dict(e.args[4]).get('key') for e in p.named('db') if e.args[0] in ('row_update', 'row_insert') and e.args[1] == 'app.Item']
                current = list(after_begin(p))
                used = used[:len(used) - len([e for e in current if e.args[0] in ('row_update', 'row_insert') and e.args[1] == 'app.Item'])]
                for e in current:
                    if e.args[0] not in ('row_update', 'row_insert') or e.args[1] != 'app.Item':
                        continue
                    ctx.ob(R_SAVE)
                    n += 1
                    vals = dict(e.args[4])
                    v = vals.get('key')
                    rg = random_range(v)
                    if rg is None:
                        ctx.finding('%s:%s:%s' % (R_SAVE, name, e.args[0]), 'saving writes %r to the key column instead of a random number (%s)' % (v, name), functions(x.it, 'pre_save'))
                    elif rg[0] < LO or rg[1] >= HI or rg[1] - rg[0] < WIDE:
                        ctx.finding('%s:%s:range' % (R_SAVE, name), 'saving draws the key from %s..%s, which is not the 64-bit range (%s)' % (rg[0], rg[1], name), functions(x.it, 'pre_save'))
                    if v in used:
                        ctx.finding('%s:%s:repeated' % (R_SAVE, name), 'saving writes the key of an earlier save again (%s)' % name, functions(x.it, 'pre_save'))
                    last = v
                if last is not None and kind == 'key' and p.value[0] != last:
                    ctx.finding('%s:%s:attribute' % (R_SAVE, name), 'after saving the instance holds %r instead of the key %r stored in its row (%s)' % (p.value[0], last, name), [])
            if not n:
                raise NoVerdict('saving an instance wrote nothing in %s' % name)
