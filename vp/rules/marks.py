"""Dirty markers left by row operations (C01 - C05)."""
import itertools
from ..core import BACKENDS, NoVerdict
from ..sqlparse import SqlError, SqlUnknown, show_text
from ..values import Term
from .. import worlds
from ..worlds import row, row_ops, apply, pk, changed, show_op, show_value, trigger_for, PAIRS, A, B


def ct(label):
    return Term('ct', label)


def settings(**kw):
    return {'settings': kw}


def blame(prog, t, event, eff, c, extra=None):
    """Source lines of the construct responsible for a wrong effect."""
    locs = []
    if extra is not None:
        for cc, o, s in eff.marks:
            if cc == c and o in extra and s.src:
                locs.append(s.src)
    for tr in trigger_for(prog, t, event):
        locs += tr.ex.srcs()[:8]
        for s in tr.ex.ev.stack[::-1]:
            if str(s[0]).startswith('denorm'):
                locs.append(s)
                break
    if not trigger_for(prog, t, event):
        for e in prog.triggers[:1]:
            for s in e.ex.ev.stack:
                if str(s[0]).startswith('denorm'):
                    locs.append(s)
    return locs


def statement_text(prog, t, event):
    return '\n'.join(show_text(tr.ex.sql).strip() for tr in trigger_for(prog, t, event)) or '(no %s trigger on %s)' % (event, t.label)


def judge(ctx, prog, rule, name, t, w, event, old, new, label, expected, allowed, known=True):
    """One obligation: markers of `label` left by an operation."""
    ctx.ob(rule)
    key = '%s:%s:%s:%s' % (rule, name, t.label, event)
    try:
        w2, eff = apply(prog, w, t, event, old, new)
    except SqlError as e:
        ctx.finding(key + ':error', 'on %s the %s trigger of %s fails: %s' % (name, event, t.label, e),
                    [e.src] + blame(prog, t, event, None, None), statement_text(prog, t, event))
        return
    got = set(o for o in eff.mark_set(ct(label)) if o is not None)
    missing = expected - got
    extra = got - expected - allowed
    if missing:
        ctx.finding(key + ':missing', '%s leaves no marker for %s row(s) %s (%s)' % (
            show_op(t, event, old, new), label, ', '.join(map(show_value, sorted(missing, key=str))), name),
            blame(prog, t, event, eff, ct(label)), statement_text(prog, t, event))
    if extra:
        ctx.finding(key + ':extra', '%s marks unrelated %s row(s) %s (%s)' % (
            show_op(t, event, old, new), label, ', '.join(map(show_value, sorted(extra, key=str))), name),
            blame(prog, t, event, eff, ct(label), extra), statement_text(prog, t, event))
    ctx.sample('%s %s: markers %s' % (name, show_op(t, event, old, new), sorted(map(show_value, got))))
    return eff


STRICT = [(A, A), (A, B)]
KEYPAIRS = [(x, y) for x in (None, 1, 2) for y in (None, 1, 2)]


# ---- C01 -------------------------------------------------------------------------------------------

def forward(ctx):
    ctx.rule('referencing rows are marked', 'for every row operation on the referenced table, the markers inserted by its trigger are exactly the keys of the declaring rows referencing it')
    for backend in BACKENDS:
        for variant in ('plain', 'late', 'keys', 'two', 'o2o', 'pkrel', 'code', 'strict', 'self'):
            for unsafe in (None, True):
                cfg = {'variant': variant}
                if unsafe is not None:
                    cfg['settings'] = {'DENORM_BULK_UNSAFE_TRIGGERS': unsafe}
                prog = ctx.program('fwd', backend, config=cfg)
                if prog is None:
                    continue
                name = '%s/%s%s' % (backend, variant, '' if unsafe is None else '/bulk-unsafe')
                this = prog.schema['app.Item']
                k = pk(this)
                if variant == 'self':
                    w = {'app.Item': [row(this, **{k: 1, 'title': A}), row(this, **{k: 2, 'owner_id': 1, 'title': A}), row(this, **{k: 3, 'owner_id': 7, 'title': A}),
                                      row(this, **{k: 4, 'owner_id': 9, 'title': A}), row(this, **{k: 5, 'owner_id': 1, 'title': A}), row(this, **{k: 6, 'owner_id': 7})]}
                    doms = {'owner_id': [(x, y) for x in (None, 1, 7) for y in (None, 1, 7)], 'title': PAIRS, 'val': PAIRS}
                    ops = row_ops(w, this, doms, 7, 9)
                    for wb, event, old, new in ops:
                        if event == 'update' and not changed(old, new):
                            continue
                        target = (new or old)[k]
                        after = wb['app.Item']
                        if event == 'delete':
                            after = [r for r in after if r[k] != target]
                        elif event == 'insert':
                            after = after + [new]
                        else:
                            after = [r for r in after if r[k] != target] + [new]
                        exp = set(r[k] for r in after if r['owner_id'] == target)
                        allowed = set(r[k] for r in wb['app.Item'] if r['owner_id'] == target)
                        if event != 'delete' and not unsafe:
                            allowed.add(target)
                        judge(ctx, prog, 'referencing rows are marked', name, this, wb, event, old, new, 'app.Item', exp, allowed)
                    continue
                other = prog.schema['app.Owner']
                o = pk(other)
                ref = 'code' if variant == 'code' else o
                w = {'app.Owner': [row(other, **{o: 1}), row(other, **{o: 2})],
                     'app.Item': [row(this, **{k: 11, 'owner_id': 1}), row(this, **{k: 12, 'owner_id': 2}), row(this, **{k: 13, 'owner_id': None}),
                                  row(this, **{k: 14, 'owner_id': 1}), row(this, **{k: 15, 'owner_id': 3}), row(this, **{k: 1, 'owner_id': 2}), row(this, **{k: 3})]}
                if variant == 'pkrel':
                    # the reference is the key
                    w['app.Item'] = [row(this, **{k: i}) for i in (1, 2, 3)]
                if 'first_id' in this.by_att:
                    for r, v in zip(w['app.Item'], (2, 1, 1, 3, 2, 1, 3)):
                        r['first_id'] = v
                doms = {'title': PAIRS, 'rank': PAIRS}
                if variant == 'code':
                    # the foreign key holds codes, which differ from the keys
                    for r, v in zip(w['app.Owner'], (2, 3)):
                        r['code'] = v
                    doms['code'] = [(1, 1), (2, 2), (3, 3)]
                elif variant == 'strict':
                    doms = {'title': STRICT, 'rank': STRICT}
                for wb, event, old, new in row_ops(w, other, doms, 1, 3):
                    if event == 'update' and not changed(old, new):
                        continue
                    target = (new or old)[ref]
                    exp = set(r[k] for r in wb['app.Item'] if r['owner_id'] == target)
                    judge(ctx, prog, 'referencing rows are marked', name, other, wb, event, old, new, 'app.Item', exp, set())


# ---- C02 -------------------------------------------------------------------------------------------

def backward(ctx):
    ctx.rule('old and new owner are marked', 'for every row operation on the referencing table, the markers inserted by its trigger are exactly the non-NULL old and new key values')
    rule = 'old and new owner are marked'
    for backend in BACKENDS:
        for variant in ('plain', 'keys', 'two', 'o2o', 'pkrel', 'code', 'strict', 'self', 'both'):
            for unsafe in (None, True):
                cfg = {'variant': variant}
                if unsafe is not None:
                    cfg['settings'] = {'DENORM_BULK_UNSAFE_TRIGGERS': unsafe}
                prog = ctx.program('bwd', backend, config=cfg)
                if prog is None:
                    continue
                name = '%s/%s%s' % (backend, variant, '' if unsafe is None else '/bulk-unsafe')
                own = prog.schema['app.Owner']
                selfdep = variant in ('self', 'both')
                this = own if selfdep else prog.schema['app.Item']
                k = pk(this)
                if selfdep:
                    w = {'app.Owner': [row(own, **{k: i}) for i in (1, 2, 5)]}
                    w['app.Owner'].append(row(own, **{k: 6, 'parent_id': 7}))
                    w['app.Owner'].append(row(own, **{k: 8, 'parent_id': 9}))
                else:
                    w = {'app.Owner': [row(own, **{pk(own): i}) for i in (1, 2, 5)],
                         'app.Item': [row(this, **{k: 1, 'parent_id': 2}), row(this, **{k: 2, 'parent_id': 5}), row(this, **{k: 21, 'parent_id': 5})]}
                if variant == 'pkrel':
                    pointing(ctx, prog, rule, name)
                    continue
                doms = {'parent_id': KEYPAIRS}
                for c in this.cols:
                    if not c.pk and c.attname != 'parent_id':
                        doms[c.attname] = PAIRS if c.attname != 'other_id' else KEYPAIRS
                named = {i: i for i in (1, 2, 5)}
                if variant == 'code':
                    # the foreign key holds codes, which differ from the keys
                    named = {2: 1, 1: 5, 5: 2}
                    for r in w['app.Owner']:
                        r['code'] = [c for c in named if named[c] == r[pk(own)]][0]
                elif variant == 'strict':
                    doms = {'parent_id': [p for p in KEYPAIRS if None not in p], 'note': STRICT}
                for wb, event, old, new in row_ops(w, this, doms, 7, 9):
                    if event == 'update' and not changed(old, new):
                        continue
                    exp = set(r['parent_id'] if selfdep else named[r['parent_id']] for r in (old, new) if r is not None and r['parent_id'] is not None)
                    allowed = set()
                    if selfdep and not unsafe and event != 'delete':
                        allowed.add(new[k])
                    if variant == 'both':
                        allowed |= set(r[k] for r in wb['app.Owner'] if r['parent_id'] == (new or old)[k])
                        exp |= set(r[k] for r in wb['app.Owner'] if r['parent_id'] == (new or old)[k] and r[k] != (new or old)[k])
                    judge(ctx, prog, rule, name, this, wb, event, old, new, 'app.Owner', exp, allowed)


def pointing(ctx, prog, rule, name):
    """Rows whose reference is their key."""
    own, this = prog.schema['app.Owner'], prog.schema['app.Item']
    k = pk(this)
    w = {'app.Owner': [row(own, **{pk(own): i}) for i in (1, 2, 5)], 'app.Item': [row(this, **{k: 2, 'note': A})]}
    ops = list(row_ops(w, this, {'note': PAIRS}, 1, 5))
    ops += [(wb, event, old, dict(new, **{k: 5})) for wb, event, old, new in ops if event == 'update']
    for wb, event, old, new in ops:
        if event == 'update' and not changed(old, new):
            continue
        exp = set(r[k] for r in (old, new) if r is not None)
        judge(ctx, prog, rule, name, this, wb, event, old, new, 'app.Owner', exp, set())


# ---- C03 -------------------------------------------------------------------------------------------

SELF = ('self', 'bself', 'symm')


def many(ctx):
    r_link = 'link changes mark the declaring row'
    r_rel = 'changes of a related row mark every linked row'
    r_gen = 'generic attachments mark their object'
    ctx.rule(r_link, 'for every insert, delete or re-pointing in the link table the markers are exactly the old and new declaring-side keys')
    ctx.rule(r_rel, 'for every column change of a related row the markers are exactly the declaring-side keys linked to it')
    ctx.rule(r_gen, 'for every row operation on the attached table the old and new object keys of the declaring type are marked')
    for backend in BACKENDS:
        for unsafe in (None, True):
            for variant in ('forward', 'backward', 'keys', 'bkeys', 'strict', 'bstrict', 'self', 'bself', 'symm', 'through', 'bthrough', 'generic', 'gnamed'):
                cfg = {'variant': variant}
                if unsafe is not None:
                    cfg['settings'] = {'DENORM_BULK_UNSAFE_TRIGGERS': unsafe}
                prog = ctx.program('m2m', backend, config=cfg)
                if prog is None:
                    continue
                name = '%s/%s%s' % (backend, variant, '' if unsafe is None else '/bulk-unsafe')
                if variant in ('generic', 'gnamed'):
                    generic(ctx, prog, r_gen, name)
                    continue
                item = prog.schema['app.Item']
                tag = item if variant in SELF else prog.schema['app.Tag']
                link, a, b = {
                    'forward': ('app.Item_tags', 'item_id', 'tag_id'),
                    'keys': ('app.Item_tags', 'item_id', 'tag_id'),
                    'backward': ('app.Tag_items', 'item_id', 'tag_id'),
                    'bkeys': ('app.Tag_items', 'item_id', 'tag_id'),
                    'strict': ('app.Item_tags', 'item_id', 'tag_id'),
                    'bstrict': ('app.Tag_items', 'item_id', 'tag_id'),
                    'self': ('app.Item_links', 'from_item_id', 'to_item_id'),
                    'bself': ('app.Item_links', 'to_item_id', 'from_item_id'),
                    'symm': ('app.Item_links', 'from_item_id', 'to_item_id'),
                    'bthrough': ('app.Link', 'thing_id', 'label_id'),
                    'through': ('app.Link', 'thing_id', 'label_id')}[variant]
                link = prog.schema[link]
                ki, kt, kl = pk(item), pk(tag), pk(link)
                w = {'app.Item': [row(item, **{ki: i}) for i in (1, 2, 3, 4)]}
                if variant not in SELF:
                    w['app.Tag'] = [row(tag, **{kt: i}) for i in (1, 2, 3)]
                w[link.label] = [row(link, **{kl: 31, a: 1, b: 2}), row(link, **{kl: 32, a: 2, b: 1}), row(link, **{kl: 33, a: 3, b: 1}), row(link, **{kl: 34, a: 1, b: 3}),
                                 row(link, **{kl: 1, a: 4, b: 2})]
                doms = {a: [(x, y) for x in (1, 2, 3) for y in (1, 2, 3)], b: [(x, y) for x in (1, 2, 3) for y in (1, 2, 3)]}
                for wb, event, old, new in row_ops(w, link, doms, 37, 38):
                    if event == 'update' and not changed(old, new):
                        continue
                    exp = set(r[a] for r in (old, new) if r is not None)
                    judge(ctx, prog, r_link, name, link, wb, event, old, new, 'app.Item', exp, set())
                doms = {c.attname: STRICT if 'strict' in variant else PAIRS for c in tag.cols if not c.pk}
                for key in (1, 2, 3):
                    for wb, event, old, new in row_ops(w, tag, doms, key, 9):
                        if event != 'update' or not changed(old, new):
                            continue
                        exp = set(r[a] for r in wb[link.label] if r[b] == key)
                        allowed = set([key]) if variant in SELF and not unsafe else set()
                        judge(ctx, prog, r_rel, name, tag, wb, event, old, new, 'app.Item', exp, allowed)


def generic_columns(com, cts):
    """Columns of the generic key followed, and values of those of another one."""
    if 'about_id' in com.by_att:
        return 'about_id', 'which', {'content_type_id': cts[0], 'object_id': 6}
    return 'content_type_id', 'object_id', {}


def generic(ctx, prog, rule, name):
    com = prog.schema['app.Comment']
    cts = [ct('app.Item'), ct('app.Thing'), ct('app.Other'), None]
    t, o, fixed = generic_columns(com, cts)
    doms = {t: [(x, y) for x in cts for y in cts], o: KEYPAIRS, 'text': PAIRS}
    w = {'app.Comment': [row(com, **{'id': 1, t: cts[0], o: 2}), row(com, **{'id': 2, t: cts[1], o: 1})],
         'app.Item': [row(prog.schema['app.Item'], id=i) for i in (1, 2)], 'app.Thing': [row(prog.schema['app.Thing'], id=i) for i in (1, 2)]}
    for wb, event, old, new in row_ops(w, com, doms, 7, 8, fixed):
        if event == 'update' and not changed(old, new):
            continue
        for label in ('app.Item', 'app.Thing'):
            exp = set(r[o] for r in (old, new) if r is not None and r[t] == ct(label) and r[o] is not None)
            allowed = set(r[o] for r in (old, new) if r is not None)
            judge(ctx, prog, rule, name + '/' + label, com, wb, event, old, new, label, exp, allowed)


# ---- C04 -------------------------------------------------------------------------------------------

def own(ctx):
    r_own = 'own row is marked'
    r_off = 'bulk-unsafe drops own-row markers only'
    r_del = 'no marker elsewhere'
    ctx.rule(r_own, 'insert and column-changing update of a row with a computed field mark exactly that row')
    ctx.rule(r_off, 'with the bulk-unsafe option true no own-row marker is left and every dependency marker stays')
    ctx.rule(r_del, 'operations on other tables or deletes leave no own-row marker')
    for backend in BACKENDS:
        for variant in ('plain', 'keys', 'single'):
            for setting in ('unset', False, True):
                cfg = {'variant': variant}
                if setting != 'unset':
                    cfg['settings'] = {'DENORM_BULK_UNSAFE_TRIGGERS': setting}
                if variant == 'single' and setting is True:
                    x = ctx.extraction('own', backend, config=cfg)
                    r = ctx.ok_result(x, 'installing triggers for a model without dependencies', 'own/%s/single' % backend)
                    ctx.ob(r_off)
                    if r is not None:
                        made = [e for e in r.execs() if 'trigger' in show_text_lower(e.sql) and 'create' in show_text_lower(e.sql)]
                        if made:
                            ctx.finding('%s:%s/single' % (r_off, backend), 'a trigger is installed although the bulk-unsafe option is on and nothing is depended on', made[0].srcs(), show_text(made[0].sql))
                    continue
                prog = ctx.program('own', backend, config=cfg)
                if prog is None:
                    continue
                name = '%s/%s/%s' % (backend, variant, setting)
                item, owner = prog.schema['app.Item'], prog.schema['app.Owner']
                by = prog.schema['app.Bystander']
                k = pk(item)
                w = {'app.Owner': [row(owner, id=1), row(owner, id=2)], 'app.Bystander': [row(by, id=i) for i in (1, 2, 7)],
                     'app.Item': [row(item, **{k: 1, 'owner_id': 2}), row(item, **{k: 2, 'owner_id': 1})]}
                doms = {'owner_id': KEYPAIRS}
                for c in item.cols:
                    if not c.pk and c.attname != 'owner_id':
                        doms[c.attname] = PAIRS
                for wb, event, old, new in row_ops(w, item, doms, 7, 8):
                    if event == 'update' and not changed(old, new):
                        continue
                    if event == 'delete' or setting is True:
                        judge(ctx, prog, r_off if setting is True else r_del, name, item, wb, event, old, new, 'app.Item', set(), set())
                    else:
                        judge(ctx, prog, r_own, name, item, wb, event, old, new, 'app.Item', set([new[k]]), set())
                for wb, event, old, new in row_ops(w, by, {'note': PAIRS}, 7, 8):
                    judge(ctx, prog, r_del, name, by, wb, event, old, new, 'app.Item', set(), set())
                if variant == 'single':
                    continue
                for wb, event, old, new in row_ops(w, owner, {'title': PAIRS}, 1, 3):
                    if event == 'update' and not changed(old, new):
                        continue
                    exp = set(r[k] for r in wb['app.Item'] if r['owner_id'] == (new or old)['id'])
                    judge(ctx, prog, r_off if setting is True else r_del, name, owner, wb, event, old, new, 'app.Item', exp, set())


def show_text_lower(v):
    try:
        return show_text(v).lower()
    except Exception:
        return repr(v).lower()


# ---- C05 -------------------------------------------------------------------------------------------

EVERY = ('id', 'a', 'n', 'g', 'ref_id', 'one_id', 't', 'flag', 'dec', 'day', 'stamp', 'born', 'raw', 'uid', 'doc', 'late', 'item_id', 'second_id',
         'content_type_id', 'object_id', 'val', 'val2')
SKIPS = [
    dict(),
    dict(skip=('a',)),
    dict(skip=('n', 'g')),
    dict(always=('n',)),
    dict(skip=('a',), always=('n',)),
    dict(skip=('ref_id', 'flag')),
    dict(always=('one_id', 'dec')),
    dict(skip=('stamp', 'uid'), always=('raw',)),
    dict(skip=EVERY),
    dict(second=True, skip=('a',), skip2=('n',)),
    dict(second=True, skip=EVERY, skip2=EVERY[:-1]),
    dict(second=True, skip=('n',), skip2=('a', 'n')),
    dict(second=True, skip=('a',), skip2=None, always=('g',)),
]
KINDS = ('own', 'forward', 'backward', 'm2m', 'generic', 'ck_forward', 'ck_backward', 'ck_m2m', 'ck_generic',
         'cd_forward', 'cd_backward', 'cd_m2m', 'cd_generic', 'count', 'sum')


def watched(ctx):
    r_fire = 'a change of a watched column has its effect'
    r_quiet = 'an update without change of a watched column has none'
    ctx.rule(r_fire, 'if a non-skipped stored column differs between OLD and NEW (NULL-safely) the update trigger performs its action')
    ctx.rule(r_quiet, 'if no non-skipped stored column differs the update trigger performs nothing')

    def case(c):
        backend, kind, sk = c
        prog = ctx.program('watch', backend, config=dict(sk, kind=kind))
        if prog is not None:
            watch_case(ctx, prog, backend, kind, sk, r_fire, r_quiet)
    ctx.parallel(case, [(backend, kind, sk) for backend in BACKENDS for kind in KINDS for sk in SKIPS
                        if not sk.get('second') or kind in ('own', 'forward', 'backward', 'ck_forward', 'ck_backward')])


def rekeyed(world, w, doms, fixed):
    """Updates that change nothing but the primary key of the row."""
    k = pk(w)
    quiet = {n: [p for p in pairs if p[0] == p[1]] or pairs[:1] for n, pairs in doms.items()}
    for wb, event, old, new in row_ops(world, w, quiet, 7, 8, fixed):
        if event == 'update':
            yield wb, event, old, dict(old, **{k: 8})


def watch_case(ctx, prog, backend, kind, sk, r_fire, r_quiet):
    w = prog.schema['app.Watched']
    name = '%s/%s%s' % (backend, kind, ''.join(' %s=%s' % (n, 'all columns' if v == EVERY else v) for n, v in sorted(sk.items())))
    always = set(sk.get('always') or ())
    skipped = set(sk.get('skip') or ()) | always
    if sk.get('second'):
        skipped &= set(sk.get('skip2') or ()) | always
    fixed = {}
    doms = {}
    for c in w.cols:
        if c.attname in ('a', 'n', 'g'):
            doms[c.attname] = PAIRS
        elif not c.pk and c.attname in ('val', 'val2'):
            doms[c.attname] = [(None, None), (None, A), (A, B)] if not sk else [(None, None), (A, B)]
    world = {t.label: [] for t in prog.schema.tables}
    if kind in ('forward', 'ck_forward', 'cd_forward'):
        world['app.Item'] = [row(prog.schema['app.Item'], id=5, w_id=7), row(prog.schema['app.Item'], id=6, w_id=8)]
        if sk.get('second'):
            world['app.Second'] = [row(prog.schema['app.Second'], id=5, w_id=7), row(prog.schema['app.Second'], id=6, w_id=8)]
    elif kind in ('backward', 'ck_backward', 'cd_backward', 'count', 'sum'):
        world['app.Item'] = [row(prog.schema['app.Item'], id=1), row(prog.schema['app.Item'], id=2)]
        if kind in ('count', 'sum'):
            for r in world['app.Item']:
                r['num'] = 5
        doms['item_id'] = [(1, 1), (1, 2), (1, None), (None, 2)]
        if sk.get('second'):
            world['app.Second'] = [row(prog.schema['app.Second'], id=1), row(prog.schema['app.Second'], id=2)]
            fixed['second_id'] = 1
    elif kind in ('m2m', 'ck_m2m', 'cd_m2m'):
        world['app.Item'] = [row(prog.schema['app.Item'], id=1), row(prog.schema['app.Item'], id=2)]
        world['app.Item_ws'] = [row(prog.schema['app.Item_ws'], id=1, item_id=1, watched_id=7), row(prog.schema['app.Item_ws'], id=2, item_id=2, watched_id=8)]
    elif kind in ('generic', 'ck_generic', 'cd_generic'):
        world['app.Item'] = [row(prog.schema['app.Item'], id=1), row(prog.schema['app.Item'], id=2)]
        c = ct('app.Item')
        doms['content_type_id'] = [(c, c), (c, None), (None, c)]
        doms['object_id'] = [(1, 1), (1, 2)]
    others = [c.attname for c in w.cols if not c.pk and c.attname not in doms and c.attname not in fixed]
    ops = [row_ops(world, w, doms, 7, 8, fixed)]
    for o in others:
        quiet = {n: [p for p in pairs if p[0] == p[1]] or pairs[:1] for n, pairs in doms.items() if n not in ('val', 'val2')}
        ops.append(row_ops(world, w, dict(quiet, **{o: PAIRS}), 7, 8, fixed))
        ops.append(row_ops(world, w, dict(quiet, **{o: PAIRS}), 7, 8, dict({x: None for x in others}, **fixed)))
    ops.append(rekeyed(world, w, doms, fixed))
    for wb, event, old, new in itertools.chain(*ops):
        if event != 'update':
            continue
        diff = [x for x in changed(old, new) if x not in skipped]
        rule = r_fire if diff else r_quiet
        if kind in ('count', 'sum') and diff:
            continue
        ctx.ob(rule)
        key = '%s:%s' % (rule, name)
        try:
            w2, eff = apply(prog, wb, w, event, old, new)
        except SqlError as e:
            ctx.finding(key + ':error', 'on %s the update trigger fails: %s' % (name, e), [e.src] + blame(prog, w, event, None, None), statement_text(prog, w, event))
            return
        labels = set(c.args[0] for c, o, s in eff.marks if isinstance(c, Term)) | set(l for l, r, k, a, b, s in eff.updates)
        want = set(['app.Watched' if kind == 'own' else 'app.Item'])
        if sk.get('second') and kind != 'own':
            want.add('app.Second')
        if diff and not want <= labels:
            ctx.finding(key, 'changing %s of a watched row has no effect for %s (%s)' % (', '.join(diff), ', '.join(sorted(want - labels)), name),
                        blame(prog, w, event, eff, None), show_op(w, event, old, new) + '\n' + statement_text(prog, w, event))
        if not diff and labels:
            ctx.finding(key, 'an update changing %s has an effect on %s (%s)' % (
                ', '.join(changed(old, new)) + ' (skipped)' if changed(old, new) else 'nothing', ', '.join(sorted(labels)), name),
                blame(prog, w, event, eff, None), show_op(w, event, old, new) + '\n' + statement_text(prog, w, event))
        ctx.sample('%s %s: %s' % (name, show_op(w, event, old, new), 'effect' if labels else 'no effect'))
