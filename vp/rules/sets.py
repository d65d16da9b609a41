"""The set of installed triggers (C09) and how it is replaced (C10), named (C18) and placed (C19)."""
import itertools
from ..core import BACKENDS, NoVerdict
from ..sqlparse import SqlError, N, show_text
from ..sqlsem import Fresh
from ..values import Term, SStr, Ite, sparts, same
from ..worlds import row, row_ops, apply, pk, changed, show_op, show_value, trigger_for, A, B
from ..traces import paths, functions
from .marks import ct, blame, statement_text, KEYPAIRS

R_ALL = 'every declaration has its effect exactly once'
R_ONE = 'one trigger per table, event and content type'
R_NAME = 'trigger names do not collide'
R_ALWAYS = 'creation does not depend on anything but the declarations'

FIELDS = ('b_val', 'b_ck', 'b_num', 'b_num2', 'b_sum', 't_val', 't_ck', 'o_val', 'h_val', 'h_val2', 'i_val', 'i_val2', 'i_ck', 'j_val',
          'g_val', 'g_ck', 'p_set')
AGG = ('b_num', 'b_num2', 'b_sum')
OWN = {'b_val': 'Boss', 't_val': 'Thing', 'o_val': 'Other', 'h_val': 'Hub', 'h_val2': 'Hub', 'i_val': 'Item', 'i_val2': 'Item',
       'j_val': 'Item2', 'g_val': 'Group', 'p_set': 'Pick'}


def complete(ctx):
    ctx.rule(R_ALL, 'for sets of declarations sharing tables, the markers, new keys and adjustments of each row operation are those of all declarations together, each once')
    ctx.rule(R_ONE, 'no two created triggers have the same table and event unless they are restricted to different content types')
    ctx.rule(R_NAME, 'the names of all created triggers, and of the functions they call, are pairwise different for every table name')
    ctx.rule(R_ALWAYS, 'no CREATE TRIGGER statement is executed conditionally or an unknown number of times')
    sets = [()] + [(f,) for f in FIELDS] + list(itertools.combinations(FIELDS, 2)) + [FIELDS, tuple(f for f in FIELDS if f != 'h_val')]
    sets += [FIELDS + ('unmanaged',), ('i_val', 'unmanaged'), FIELDS + ('proxy',), ('b_num', 'b_val', 'h_val', 'proxy'), ('b_num', 'b_sum', 'h_val', 'b_ck', 'child'), ('i_val', 'swapped'), ('swapped',), ('b_num', 'b_num2', 'b_sum')]
    cases = []
    for b in BACKENDS:
        for s in sets:
            if not s or s == ('swapped',):
                continue
            cases.append((b, s, False))
            if b != 'sqlite' and len(set(s) & set(AGG)) and (len(s) > 2 or len(set(s) & set(AGG)) > 1):
                cases.append((b, s, True))
    ctx.parallel(lambda c: case(ctx, *c), cases)
    nothing(ctx)


def nothing(ctx):
    """Models without declarations, and swapped models, get no triggers."""
    for backend in BACKENDS:
        for s in ((), ('swapped',)):
            x = ctx.extraction('sink', backend, config=config(s, False))
            r = ctx.ok_result(x, 'installing triggers without any declaration', 'sink/%s/%s' % (backend, '+'.join(s)))
            ctx.ob(R_ALL)
            if r is None:
                continue
            for e in r.execs():
                t = show_text(e.sql).lower()
                if 'create trigger' in t:
                    ctx.finding('%s:%s:%s:none' % (R_ALL, backend, '+'.join(s)), 'a trigger is created although no installed model declares anything (%s)' % backend, e.srcs(), show_text(e.sql))


def config(s, cond):
    return {'on': s, 'conditions': cond, 'settings': {'APP_SWAPPED_MODEL': 'app.Boss'}}


def case(ctx, backend, s, cond):
    name = '%s/%s%s' % (backend, 'all' if len(s) > 12 else '+'.join(s), '/conditions' if cond else '')
    prog = ctx.program('sink', backend, config=config(s, cond))
    if prog is None:
        return
    structure(ctx, prog, name)
    effects(ctx, prog, s, cond, name)


# ---- structure ---------------------------------------------------------------------------------------

def terms(n, op, out=None):
    """Terms with an operator anywhere below a syntax node."""
    out = set() if out is None else out
    if isinstance(n, N):
        for x in n.a:
            terms(x, op, out)
        for k, v in n.__dict__.items():
            if k not in ('op', 'a', 'src'):
                terms(v, op, out)
    elif isinstance(n, (list, tuple)):
        for x in n:
            terms(x, op, out)
    elif isinstance(n, Term):
        if n.op == op:
            out.add(n)
        for x in n.args:
            terms(x, op, out)
    elif isinstance(n, SStr):
        terms(list(n.parts), op, out)
    return out


def restriction(tr):
    """Content types a trigger is restricted to."""
    out = terms(tr.when, 'ct') if tr.when is not None else set()
    body = tr.body
    while len(body) == 1 and body[0].op == 'block':
        body = body[0].a[0]
    for s in body:
        if s.op == 'if':
            for c, b in s.a[0]:
                out |= terms(c, 'ct')
    return out


def structure(ctx, prog, name):
    trs = prog.triggers
    groups = {}
    for tr in trs:
        for ev in tr.events:
            groups.setdefault((tr.table.label, ev, tr.time), []).append(tr)
    for (label, ev, time), g in sorted(groups.items()):
        ctx.ob(R_ONE)
        cts = [restriction(t) for t in g]
        for i, j in itertools.combinations(range(len(g)), 2):
            if cts[i] & cts[j] or not cts[i] and not cts[j]:
                ctx.finding('%s:%s:%s:%s' % (R_ONE, name, label, ev), 'two triggers are created for %s on %s (%s)' % (ev, label, name),
                            g[i].ex.srcs()[:4] + g[j].ex.srcs()[:4], show_text(g[i].ex.sql) + show_text(g[j].ex.sql))
    for tr in trs:
        ctx.ob(R_ALWAYS)
        if tr.ex.conds:
            ctx.finding('%s:%s:%s' % (R_ALWAYS, name, tr.table.label), 'creating the %s trigger of %s depends on %s (%s)' % (
                '/'.join(tr.events), tr.table.label, ' and '.join(('' if v else 'not ') + repr(c) for c, v in tr.ex.conds), name), tr.ex.srcs()[:4] + own_stack(tr.ex))
    names = [(tr, names_of(tr)) for tr in trs]
    for (t1, n1), (t2, n2) in itertools.combinations(names, 2):
        ctx.ob(R_NAME)
        for a in n1:
            for b in n2:
                if collide(a, b):
                    ctx.finding('%s:%s:%s:%s' % (R_NAME, name, t1.table.label, t2.table.label), 'the triggers of %s and %s may get the same name %s (%s)' % (
                        t1.table.label, t2.table.label, show_text(a), name), t1.ex.srcs()[:3] + t2.ex.srcs()[:3])
                    break
        for a in names_of(t1, 'function'):
            for b in names_of(t2, 'function'):
                if collide(a, b):
                    ctx.finding('%s:%s:%s:%s:function' % (R_NAME, name, t1.table.label, t2.table.label), 'the triggers of %s and %s may get the same function %s (%s)' % (
                        t1.table.label, t2.table.label, show_text(a), name), t1.ex.srcs()[:3] + t2.ex.srcs()[:3])
                    break


def own_stack(ex):
    return [s for s in reversed(ex.ev.stack) if str(s[0]).startswith('denorm')][:3]


def names_of(tr, kind='trigger'):
    out = []
    for asg, nodes in tr.ex.variants:
        for n in nodes:
            if n.op == kind:
                v = n.a[0].a[0]
                if not any(same(v, o) for o in out):
                    out.append(v)
    return out


def fresh_part(v):
    return 'random' in repr(v) or 'digest' in repr(v)


def collide(a, b):
    """Two name templates may denote the same name for some table names."""
    if same(a, b):
        return True
    if fresh_part(a) or fresh_part(b):
        return False
    ta, tb = cut(a), cut(b)
    if ta or tb:
        return True
    return False


def cut(v):
    """The template drops part of the name it is made from."""
    return any(isinstance(p, Term) and p.op in ('strop', 'slice') and 'slice' in repr(p) for p in sparts(v))


# ---- effects -----------------------------------------------------------------------------------------

def matching(f, cond, r):
    if not cond or r is None:
        return r is not None
    if f == 'b_num':
        return r['rank'] is not None and r['rank'] > 1
    if f == 'b_num2':
        return r['kind'] == 1 and r['rank'] != 3
    return r['kind'] != 2


def expected(s, cond, w, label, event, old, new):
    """(required markers, allowed markers, required new keys, allowed new keys, deltas) of one operation."""
    req, may, ck, ckmay, delta = set(), set(), set(), set(), {}
    rows = [r for r in (old, new) if r is not None]
    diff = [] if event != 'update' else changed(old, new)
    if event == 'update' and not diff:
        return req, may, ck, ckmay, delta
    for f in s:
        if f in OWN and label == 'app.' + OWN[f] and event != 'delete':
            req.add((label, new['id']))
    if label == 'app.Hub':
        h = (new or old)['id']
        for f, m, c in (('i_val', 'Item', 'hub_id'), ('i_val2', 'Item', 'hub_id'), ('j_val', 'Item2', 'hub_id'), ('p_set', 'Pick', 'base_id')):
            if f in s:
                for r in w['app.' + m]:
                    if r[c] == h:
                        (may if f == 'i_val2' and diff == ['title'] else req).add(('app.' + m, r['id']))
        if 'i_ck' in s:
            ck |= set(('app.Item', r['id'], 'i_ck') for r in w['app.Item'] if r['hub_id'] == h)
        bosses = set(r['boss_id'] for r in rows if r['boss_id'] is not None)
        if 'b_val' in s:
            req |= set(('app.Boss', b) for b in bosses)
        if 'b_ck' in s:
            ck |= set(('app.Boss', b, 'b_ck') for b in bosses)
        groups = set(r['group_id'] for r in w['app.Group_hubs'] if r['hub_id'] == h)
        if 'g_val' in s:
            (req if event == 'update' else may).update(('app.Group', g) for g in groups)
        if 'g_ck' in s:
            (ck if event == 'update' else ckmay).update(('app.Group', g, 'g_ck') for g in groups)
        for f, m in (('t_val', 'Thing'), ('o_val', 'Other'), ('t_ck', 'Thing')):
            if f in s:
                hit = set(r['object_id'] for r in rows if r['content_type_id'] == ct('app.' + m) and r['object_id'] is not None)
                near = set(r['object_id'] for r in rows if r['object_id'] is not None)
                if f == 't_ck':
                    ck |= set(('app.' + m, o, f) for o in hit)
                    ckmay |= set(('app.' + m, o, f) for o in near)
                else:
                    req |= set(('app.' + m, o) for o in hit)
                    may |= set(('app.' + m, o) for o in near)
        for f in AGG:
            if f in s:
                for sign, r in ((1, new), (-1, old)):
                    if r is not None and r['boss_id'] is not None and matching(f, cond, r):
                        k = ('app.Boss', r['boss_id'], f)
                        delta[k] = delta.get(k, 0) + sign * (1 if f != 'b_sum' else (r['rank'] or 0))
    elif label == 'app.Boss' and 'h_val2' in s:
        req |= set(('app.Hub', r['id']) for r in w['app.Hub'] if r['boss_id'] == (new or old)['id'])
    elif label == 'app.Group_hubs':
        for r in rows:
            if 'g_val' in s:
                req.add(('app.Group', r['group_id']))
            if 'g_ck' in s:
                ck.add(('app.Group', r['group_id'], 'g_ck'))
    return req, may, ck, ckmay, delta


def effects(ctx, prog, s, cond, name):
    sch = prog.schema
    small = len(s) > 4
    world = {t.label: [] for t in sch.tables}
    world['app.Boss'] = [row(sch['app.Boss'], id=i, **{f: 50 * i for f in AGG if f in s}) for i in (1, 2)]
    world['app.Thing'] = [row(sch['app.Thing'], id=i) for i in (1, 2)]
    world['app.Other'] = [row(sch['app.Other'], id=i) for i in (1, 2)]
    world['app.Hub'] = [row(sch['app.Hub'], id=5, kind=1, boss_id=2)]
    world['app.Item'] = [row(sch['app.Item'], id=i, hub_id=h) for i, h in ((1, 7), (2, 5), (3, None))]
    world['app.Item2'] = [row(sch['app.Item2'], id=i, hub_id=h) for i, h in ((1, 5), (2, 7))]
    world['app.Group'] = [row(sch['app.Group'], id=i) for i in (1, 2)]
    world['app.Group_hubs'] = [row(sch['app.Group_hubs'], id=1, group_id=1, hub_id=7), row(sch['app.Group_hubs'], id=2, group_id=2, hub_id=5)]
    world['app.Pick'] = [row(sch['app.Pick'], id=i, base_id=h) for i, h in ((1, 7), (2, 5))]
    th, ot = ct('app.Thing'), ct('app.Other')
    hub = {'title': [(A, A), (A, B), (None, A)], 'rank': [(1, 1), (2, 3), (None, 2), (3, 1)], 'kind': [(1, 1), (1, 2)] if cond else [(1, 1)],
           'boss_id': [(1, 1), (1, 2), (None, 1), (2, None)]}
    if set(s) & set(('t_val', 't_ck', 'o_val')):
        hub.update({'content_type_id': [(th, th), (th, ot), (None, None)], 'object_id': [(1, 1), (1, 2)]})
    extra = {f: [(None, None)] for f in s if f in ('h_val', 'h_val2')}
    ops = [('app.Hub', dict(hub, **extra), 7, 8)]
    ops.append(('app.Boss', {'name': [(A, A), (A, B), (None, A)]}, 2, 3))
    ops.append(('app.Item', {'hub_id': [(5, 5), (5, 7), (None, 5)]}, 1, 9))
    ops.append(('app.Item2', {'hub_id': [(5, 5), (5, 7), (None, 5)]}, 1, 9))
    ops.append(('app.Group', {}, 1, 9))
    ops.append(('app.Thing', {}, 1, 9))
    ops.append(('app.Other', {}, 1, 9))
    ops.append(('app.Pick', {'base_id': [(5, 5), (5, 7)]}, 1, 9))
    ops.append(('app.Group_hubs', {'group_id': [(1, 1), (1, 2)], 'hub_id': [(7, 7), (7, 5)]}, 1, 9))
    for label, doms, key, new_key in ops:
        t = sch[label]
        fixed = {f: 100 for f in AGG if f in s} if label == 'app.Boss' else {}
        if label == 'app.Hub':
            fixed = {'kind': 1, 'content_type_id': None, 'object_id': None}
        for wb, event, old, new in row_ops(world, t, doms, key, new_key, fixed):
            judge(ctx, prog, s, cond, name, t, wb, event, old, new)


def judge(ctx, prog, s, cond, name, t, wb, event, old, new):
    ctx.ob(R_ALL)
    key = '%s:%s:%s:%s' % (R_ALL, name, t.label, event)
    try:
        w2, eff = apply(prog, wb, t, event, old, new)
    except SqlError as e:
        ctx.finding(key + ':error', 'the %s trigger of %s fails: %s (%s)' % (event, t.label, e, name), [e.src] + blame(prog, t, event, None, None), statement_text(prog, t, event))
        return
    req, may, ck, ckmay, delta = expected(s, cond, wb, t.label, event, old, new)
    got = set((c.args[0], o) for c, o, n in eff.marks if o is not None and isinstance(c, Term))
    bad = []
    for x in sorted(req - got, key=str):
        bad.append(('missing', 'leaves no marker for %s %s' % (x[0], show_value(x[1]))))
    for x in sorted(got - req - may, key=str):
        bad.append(('extra', 'marks %s %s' % (x[0], show_value(x[1]))))
    if eff.deletes:
        bad.append(('deletes', 'deletes rows'))
    before = {(l, r['id']): r for l, rows in wb.items() for r in rows if 'id' in r}
    seen = set()
    for l, rows in w2.items():
        for r in rows:
            b = before.get((l, r.get('id')))
            if b is None or (l == t.label and r['id'] == (new or old)['id']):
                continue
            for c in changed(b, r):
                k = (l, r['id'], c)
                seen.add(k)
                if k in ck or k in ckmay:
                    if not isinstance(r[c], Fresh):
                        bad.append(('key', 'sets %s of %s %s to %s' % (c, l, r['id'], r[c])))
                elif k in delta:
                    if r[c] is None or isinstance(r[c], Fresh) or r[c] - b[c] != delta[k]:
                        bad.append(('delta', 'changes %s of %s %s by %s instead of %s' % (c, l, r['id'], r[c] - b[c] if isinstance(r[c], int) else r[c], delta[k])))
                else:
                    bad.append(('writes', 'changes %s of %s %s' % (c, l, r['id'])))
    here = set((l, r['id']) for l, rows in w2.items() for r in rows if 'id' in r)
    for k in sorted(ck, key=str):
        if k not in seen and k[:2] in here:
            bad.append(('nokey', 'leaves the key %s of %s %s as it was' % (k[2], k[0], k[1])))
    for k, d in sorted(delta.items(), key=str):
        if d and k not in seen and k[:2] in here:
            bad.append(('nodelta', 'leaves %s of %s %s as it was instead of adding %s' % (k[2], k[0], k[1], d)))
    for kind, text in bad:
        ctx.finding('%s:%s' % (key, kind), '%s %s (%s)' % (show_op(t, event, old, new), text, name), blame(prog, t, event, eff, None), statement_text(prog, t, event))
    ctx.sample('%s %s: %d markers, %d keys, %d adjustments' % (name, show_op(t, event, old, new), len(got), len(ck), len(delta)))


# ---- C10 -------------------------------------------------------------------------------------------

R_DROP = 'dropping removes exactly the triggers with the reserved prefix'
R_PREFIX = 'every created trigger has the reserved prefix'
R_INIT = 're-initialising replaces the whole set'
LONG = 'a_table_with_a_very_long_name_that_does_not_fit_into_an_identifier'
OURS = [('denorm_after_row_insert_on_app_item', 'app_item'), ('denorm_after_row_update_on_app_item', 'app_item'), ('denorm_after_row_delete_on_app_item', 'app_item'),
        ('denorm_after_row_update_on_Mixed Case', 'Mixed Case'), ('denorm_after_row_update_on_order', 'order'),
        ('denorm_after_row_insert_on_' + LONG[:18] + 'A1B2C', LONG), ('denorm_after_row_update_on_' + LONG[:27] + '9f3e', LONG),
        ('denorm_after_row_delete_on_app_comment_content_type_id_17', 'app_comment')]
FOREIGN = [('audit', 'app_item'), ('denorm', 'app_item'), ('denormX', 'app_item'), ('denormalise_totals', 'app_item'), ('DENORM_report', 'app_item'), ('Denorm_x', 'x'),
           ('my_denorm_after_row_insert_on_app_item', 'app_item'), ('func_denorm_after', 'app_item'), (' denorm_x', 'x'), ('app_denorm_', 'denorm_table'),
           ('notify', 'denorm_after'), ('after_row_update_on_denorm_x', 'denorm_dirtyinstance'), ('RI_ConstraintTrigger_a_1', 'app_item')]


def lifecycle(ctx):
    ctx.rule(R_DROP, 'for catalogues with any of a list of own and foreign trigger names, the statements executed by dropping remove exactly the names starting with the prefix that installing uses')
    ctx.rule(R_PREFIX, 'the name in every CREATE TRIGGER template starts with the prefix, for every length of the table name')
    ctx.rule(R_INIT, 'the init command removes all previous triggers before the first creation and then creates what installing creates')
    for backend in BACKENDS:
        prefixes(ctx, backend)
        dropping(ctx, backend, 'denorm.denorms', None)
        for alias in ('default', 'other'):
            dropping(ctx, backend, 'denorm.management.commands.denorm_drop', alias)
            initialise(ctx, backend, alias)


def prefixes(ctx, backend):
    prog = ctx.program('sink', backend, config=config(FIELDS, False))
    if prog is None:
        return
    for tr in prog.triggers:
        for v in names_of(tr):
            ctx.ob(R_PREFIX)
            if not has_prefix(v):
                ctx.finding('%s:%s:%s' % (R_PREFIX, backend, tr.table.label), 'the trigger created for %s of %s is called %s, which dropping does not recognise (%s)' % (
                    '/'.join(tr.events), tr.table.label, show_text(v), backend), tr.ex.srcs()[:3])


def has_prefix(v, need='denorm_'):
    if isinstance(v, str):
        return v.startswith(need)
    p = sparts(v)[0]
    if isinstance(p, str):
        return p.startswith(need)
    if isinstance(p, Term) and p.op == 'strop' and p.args[0] == 'slice':
        lo, hi, st = p.args[2]
        return lo in (None, 0) and st in (None, 1) and (hi is None or isinstance(hi, int) and hi >= len(need)) and has_prefix(p.args[1], need)
    if isinstance(p, Term) and p.op in ('strop', 'str'):
        return any(has_prefix(a, need) for a in p.args if isinstance(a, (SStr, str)) and a != p.args[0])
    if isinstance(p, Ite):
        return has_prefix(p.a, need) and has_prefix(p.b, need)
    return False


def call_command(ctx, backend, module, alias, shape=None, cfg=None):
    """Trace of dropping / initialising through the function or the command."""
    def run(it, x):
        m = it.import_module(module)
        if module == 'denorm.denorms':
            return it.call(it.getattr(m, 'drop_triggers'), [], {} if alias is None else {'using': alias})
        c = it.call(it.getattr(m, 'Command'), [], {})
        return it.call(it.getattr(c, 'vp_call'), [it.new_dict([] if alias is None else [('database', alias)])], {})
    x = ctx.extraction(shape, backend, config=cfg or {}, run=run)
    r = ctx.ok_result(x, '%s on %s' % (module, backend), '%s/%s' % (module, backend))
    return x, r


def catalogues():
    yield OURS + FOREIGN
    yield []
    yield FOREIGN
    yield OURS
    for t in OURS + FOREIGN:
        yield [t]


def dropping(ctx, backend, module, alias):
    from .. import catalog
    x, r = call_command(ctx, backend, module, alias)
    if r is None:
        return
    name = '%s/%s/%s' % (backend, module.split('.')[-1], alias)
    for c in catalogues():
        db = catalog.Database(backend, c, functions=['func_' + a for a, b in c])
        try:
            rp = catalog.Replay(r, db).start()
        except catalog.Failed as e:
            ctx.finding('%s:%s:fails' % (R_DROP, name), 'dropping fails: %s (%s)' % (e, name), own_stack_ev(e.ev))
            return
        ctx.ob(R_DROP, max(1, len(c)))
        left = [t for t in db.triggers if t in OURS]
        lost = [t for t in c if t in FOREIGN and t not in db.triggers]
        at = [s for l in rp.log for s in own_stack_ev(l[3])][:3] or query_sites(r)
        if left:
            ctx.finding('%s:%s:left' % (R_DROP, name), 'dropping leaves the trigger %s on %s (%s)' % (left[0][0], left[0][1], name), at)
        if lost:
            ctx.finding('%s:%s:lost' % (R_DROP, name), 'dropping removes the foreign trigger %s on %s (%s)' % (lost[0][0], lost[0][1], name), at)
        if any(l[0] == 'create' for l in rp.log):
            ctx.finding('%s:%s:creates' % (R_DROP, name), 'dropping creates triggers (%s)' % name, at)
    ctx.sample('%s: %d catalogues' % (name, len(list(catalogues()))))


def query_sites(r):
    return [s for e in r.execs() for s in own_stack(e)][:3]


def own_stack_ev(ev):
    return [s for s in reversed(ev.stack) if str(s[0]).startswith('denorm')][:3]


def described(prog):
    from ..sqlsem import strip_names
    return sorted(repr((tr.table.label, tr.events, tr.time, repr(tr.when), repr(tr.body))) for tr in prog.triggers)


def initialise(ctx, backend, alias):
    from .. import catalog
    from ..sqlsem import Program
    cfg = config(FIELDS, False)
    ref = ctx.program('sink', backend, config=cfg, using=alias)
    if ref is None:
        return
    x, r = call_command(ctx, backend, 'denorm.management.commands.denorm_init', alias, 'sink', cfg)
    if r is None:
        return
    name = '%s/init/%s' % (backend, alias)
    want = described(ref)
    judged = []
    cache = {}
    for c in catalogues():
        for language in (True, False) if backend == 'postgresql' else (True,):
            db = catalog.Database(backend, c, functions=['func_' + a for a, b in c], language=language)
            rp = catalog.Replay(r, db, cache)
            ctx.ob(R_INIT)
            try:
                rp.start()
            except catalog.Failed as e:
                ctx.finding('%s:%s:fails' % (R_INIT, name), 'initialising fails: %s (%s)' % (e, name), own_stack_ev(e.ev))
                return
            made = [l for l in rp.log if l[0] == 'create']
            first = rp.log.index(made[0]) if made else len(rp.log)
            gone = [l for l in rp.log[:first] if l[0] == 'drop']
            left = [t for t in c if t in OURS and not any(t == (l[1], l[2]) for l in gone)]
            at = [s for l in made[:1] for s in own_stack_ev(l[3])]
            if left:
                ctx.finding('%s:%s:left' % (R_INIT, name), 'initialising creates triggers while the earlier trigger %s still exists (%s)' % (left[0][0], name), at)
            late = [l for l in rp.log[first:] if l[0] == 'drop']
            if late:
                ctx.finding('%s:%s:late' % (R_INIT, name), 'initialising drops triggers after creating some (%s)' % name, own_stack_ev(late[0][3]))
            lost = [t for t in c if t in FOREIGN and t not in db.triggers]
            if lost:
                ctx.finding('%s:%s:lost' % (R_INIT, name), 'initialising removes the foreign trigger %s (%s)' % (lost[0][0], name), at)
            seen = [l[3] for l in made]
            if seen in judged:
                continue
            judged.append(seen)
            p = Program(x.schema, backend)
            p.load([e for e in r.execs() if any(e.ev is l[3] for l in made)])
            if described(p) != want:
                missing = [d for d in want if d not in described(p)]
                ctx.finding('%s:%s:set' % (R_INIT, name), 'initialising does not create the triggers that installing creates (%d instead of %d, %s)' % (len(p.triggers), len(ref.triggers), name), at or query_sites(r),
                            '\n'.join(missing[:2]))
            for e in [l[3] for l in made]:
                from ..sqlparse import parse, alternatives
                for asg, text in alternatives(e.args[1])[:1]:
                    for n in parse(text, backend, e.args[2] is not None)[0]:
                        if n.op == 'function' and not n.replace:
                            ctx.finding('%s:%s:function' % (R_INIT, name), 'a function is created without replacing the one of an earlier installation (%s)' % name, [n.src] + own_stack_ev(e))


# ---- C18: real, quoted names ----------------------------------------------------------------------------

R_REAL = 'names are database names'
R_QUOTED = 'names are quoted'
R_ANY = 'no name is special'

SHAPES = [('fwd', 'variant', ('plain', 'keys', 'self', 'o2o')), ('bwd', 'variant', ('plain', 'keys', 'self', 'o2o')),
          ('m2m', 'variant', ('forward', 'backward', 'keys', 'self', 'through', 'generic')), ('own', 'variant', ('plain', 'keys')),
          ('ck', 'variant', ('forward', 'fkeys', 'fself', 'backward', 'bkeys', 'bself', 'm2m', 'mkeys', 'through', 'mback', 'mself', 'generic')),
          ('agg', 'variant', ('plain', 'keys', 'self', 'two', 'named'))]
KINDS = ('f_val', 'f_ck', 'b_val', 'b_ck', 'num', 'sum', 'm_val', 'm_ck', 'r_val', 'r_ck', 'g_val', 'g_ck')
ROLES = ('OwnerId ItemId TagId LinkId NoteId', 'OwnerTitle ItemFk TagTitle LinkOwner NoteCt', 'OwnerVal ItemRank LinkTag NoteKey', 'OwnerKey ItemKey TagKey',
         'OwnerNum', 'OwnerSum', 'OwnerTable', 'LinkTable')
WORDS = ('table', 'columns', 'self', 'select', 'order', 'NEW', 'id', 'with space')
STYLES = ('Mixed%s', 'two words %s', 'group%s', "it's%s")


def named(ctx):
    ctx.rule(R_REAL, 'every name in a trigger resolves to a table or column by its database name, which is unrelated to the model or attribute name')
    ctx.rule(R_QUOTED, 'every table or column name of a declared model is quoted by the rules of the target database')
    ctx.rule(R_ANY, 'models whose tables and columns carry reserved words or other awkward names get the same triggers as any others')
    cases = [('shape', b, s, k, v) for b in BACKENDS for s, k, vs in SHAPES for v in vs]
    cases += [('style', b, st, f, None) for b in BACKENDS for st in STYLES for f in [(k,) for k in KINDS] + [KINDS]]
    cases += [('word', b, r, w, None) for b in BACKENDS for r in ROLES for w in WORDS]
    ctx.parallel(lambda c: one_named(ctx, *c), cases)


def one_named(ctx, how, backend, a, b, c):
    if how == 'shape':
        prog = ctx.program(a, backend, config={b: c})
        name = '%s/%s/%s' % (a, c, backend)
    elif how == 'style':
        prog = ctx.program('names', backend, config={'style': a, 'on': b})
        name = 'names/%s/%s/%s' % (a, '+'.join(b) if len(b) < 4 else 'all', backend)
    else:
        prog = ctx.program('names', backend, config={'role': tuple(a.split()), 'word': b, 'on': KINDS})
        name = 'names/%s=%s/%s' % (a, b, backend)
    if prog is None:
        return
    if how != 'shape':
        ctx.ob(R_ANY)
    tables = [t for t in prog.schema.tables if t.label.startswith('app.')]
    for tr in prog.triggers:
        for node, exact in ident(tr, tables):
            ctx.ob(R_REAL)
            if not exact:
                ctx.finding('%s:%s:%s' % (R_REAL, name, show_text(node.a[0])), '%s is written in different letter case than the database name (%s)' % (show_text(node.a[0]), name), [node.src] + tr.ex.srcs()[:4])
            ctx.ob(R_QUOTED)
            if not node.quoted:
                ctx.finding('%s:%s:%s' % (R_QUOTED, name, show_text(node.a[0])), 'the name %s is not quoted (%s)' % (show_text(node.a[0]), name), [node.src] + tr.ex.srcs()[:4], show_text(tr.ex.sql))


def names_in(n, out):
    if isinstance(n, N):
        if n.op == 'name':
            out.append(n)
        for x in n.a:
            names_in(x, out)
        for k, v in n.__dict__.items():
            if k not in ('op', 'a', 'src'):
                names_in(v, out)
    elif isinstance(n, (list, tuple)):
        for x in n:
            names_in(x, out)
    return out


def ident(tr, tables):
    """Names of declared tables and columns in a trigger, and whether the letter case is right."""
    known = set()
    for t in tables:
        known.add(t.db_table)
        known |= set(c.column for c in t.cols)
    words = {k.lower(): k for k in known if isinstance(k, str)}
    for asg, nodes in tr.ex.variants:
        for node in names_in(nodes, []):
            v = node.a[0]
            if isinstance(v, Term) and v in known:
                yield node, True
            elif isinstance(v, str) and v.lower() in words and not (v.lower() in ('new', 'old') and not node.quoted):
                yield node, v in known


# ---- C19: database alias and transaction ----------------------------------------------------------------

R_ALIAS = 'statements go to the named database'
R_TX = 'changes are inside one transaction of the named database'
R_FAIL = 'a failing statement rolls everything back'

PLACES = [('install_triggers', 'call'), ('drop_triggers', 'call'), ('denorm_init', 'command'), ('denorm_drop', 'command')]


def placed(ctx):
    ctx.rule(R_ALIAS, 'every statement executed while installing or dropping is executed on the connection of the named alias (the default one without an alias)')
    ctx.rule(R_TX, 'on SQLite and PostgreSQL all statements that change the trigger set are executed inside one transaction block of the same alias')
    ctx.rule(R_FAIL, 'when any statement fails, the failure leaves the transaction block and reaches the caller')
    cases = []
    for b in BACKENDS:
        for name, how in PLACES:
            for alias in (None, 'default', 'other'):
                for faults in (False, True):
                    if faults and how == 'command':
                        continue
                    cases.append((b, name, how, alias, faults))
    ctx.parallel(lambda c: place(ctx, *c), cases)


def place(ctx, backend, fn, how, alias, faults):
    name = '%s/%s/%s' % (backend, fn, alias)
    want = alias or 'default'
    if how == 'call':
        def run(it, x):
            m = it.import_module('denorm.denorms')
            return it.call(it.getattr(m, fn), [], {} if alias is None else {'using': alias})
        x = ctx.extraction('fwd', backend, config={'variant': 'plain', 'db_faults': faults}, run=run)
        results = x.results
        r = ctx.ok_result(x, fn, name, allow=('DatabaseError',) if faults else ())
        if r is None:
            return
    else:
        x, r = call_command(ctx, backend, 'denorm.management.commands.' + fn, alias, 'fwd', {'variant': 'plain'})
        if r is None:
            return
        results = x.results
    full = None
    failed = set()
    for res in results:
        for p in paths(res):
            seq = list(p.flat())
            blocks, depth, current = [], 0, None
            changes = []
            for e, loops in seq:
                if e.name == 'atomic.enter':
                    ctx.ob(R_ALIAS)
                    if e.args[0] != want:
                        ctx.finding('%s:%s:atomic' % (R_ALIAS, name), 'a transaction is opened on database %s instead of %s (%s)' % (e.args[0], want, name), own_stack_ev(e))
                    if depth == 0:
                        current = [e, None]
                        blocks.append(current)
                    depth += 1
                elif e.name == 'atomic.exit':
                    depth -= 1
                    if depth == 0:
                        current[1] = e.args[1]
                        current = None
                elif e.name == 'execute':
                    ctx.ob(R_ALIAS)
                    if e.args[0] != want:
                        ctx.finding('%s:%s:execute' % (R_ALIAS, name), 'a statement is executed on database %s instead of %s (%s)' % (e.args[0], want, name), own_stack_ev(e), show_text(e.args[1]))
                    if changing(e.args[1]):
                        changes.append((e, current, loops))
            if res.kind == 'return':
                n = len([c for c in changes if counted(c[0].args[1])])
                full = n if full is None else min(n, full)
            else:
                failed.add((len([c for c in changes if counted(c[0].args[1])]), any(c[2] for c in changes)))
            if backend == 'mysql':
                continue
            for e, block, loops in changes:
                ctx.ob(R_TX)
                if block is None:
                    ctx.finding('%s:%s' % (R_TX, name), 'a statement that changes triggers is executed outside of a transaction (%s)' % name, own_stack_ev(e), show_text(e.args[1]))
                elif fn != 'denorm_init' and block is not changes[0][1]:
                    ctx.finding('%s:%s:several' % (R_TX, name), 'statements that change triggers are executed in several transactions (%s)' % name, own_stack_ev(e), show_text(e.args[1]))
                elif loops and block is not None and any(b for b in [block] if inside(loops, block[0], seq)):
                    ctx.finding('%s:%s:loop' % (R_TX, name), 'each statement that changes triggers is executed in its own transaction (%s)' % name, own_stack_ev(e), show_text(e.args[1]))
            if res.kind == 'raise':
                ctx.ob(R_FAIL)
                for e, block, loops in changes:
                    if block is not None and block[1] is not False:
                        ctx.finding('%s:%s:kept' % (R_FAIL, name), 'a failure leaves changes committed (%s)' % name, own_stack_ev(e), show_text(e.args[1]))
    if faults:
        ref = ctx.extraction('fwd', backend, config={'variant': 'plain'}, run=run)
        rr = ctx.ok_result(ref, fn, name)
        if rr is None:
            return
        here = functions(x.it, 'install', 'install_atomic', 'install_triggers') if fn == 'install_triggers' else functions(x.it, 'drop', 'drop_atomic', 'drop_triggers')
        sts = [(e, loop) for e, conds, loop in rr.events() if e.name == 'execute' and changing(e.args[1]) and counted(e.args[1])]
        if not sts:
            raise NoVerdict('no statement changes the triggers (%s)' % name)
        ctx.ob(R_FAIL)
        if full != len(sts):
            ctx.finding('%s:%s:swallowed' % (R_FAIL, name), 'a failing statement is ignored: %s of %d statements suffice for success (%s)' % (full, len(sts), name), here)
        for i, (e, loop) in enumerate(sts):
            ctx.ob(R_FAIL)
            if loop:
                if not any(l for n, l in failed):
                    ctx.finding('%s:%s:silent' % (R_FAIL, name), 'the failure of a statement executed in a loop is not reported to the caller (%s)' % name, own_stack_ev(e))
            elif not any(n == i for n, l in failed):
                ctx.finding('%s:%s:silent' % (R_FAIL, name), 'the failure of a statement is not reported to the caller (%s)' % name, own_stack_ev(e))


def counted(sql):
    return 'language' not in show_text(sql).strip().lower()[:20]


def inside(loops, enter, seq):
    """The block is entered inside one of the loops."""
    for e, ls in seq:
        if e is enter:
            return any(l in ls for l in loops)
    return False


def changing(sql):
    t = show_text(sql).strip().lower()
    return t.startswith('create') or t.startswith('drop') or t.startswith('alter')
