"""The table of dirty markers."""
import os

from .. import project
from ..core import NoVerdict
from ..sqlparse import N
from .flushing import MARKER

R_KEY = 'any-key-fits'
R_FREE = 'no-constraint-on-markers'
R_SAME = 'model-and-migration-agree'
R_COLS = 'triggers-write-its-columns'


def marker(ctx):
    ctx.rule(R_KEY, 'in model and migrations the object key is an unbounded text column that accepts NULL, and the content type refers to the content type table')
    ctx.rule(R_FREE, 'in model and migrations no uniqueness covers the marker columns and no other column is required')
    ctx.rule(R_SAME, 'applying the operations of all migrations gives the table, columns and column types of the model')
    ctx.rule(R_COLS, 'every insertion into the marker table by a generated trigger names exactly its content type and object key columns')
    table = check_tables(ctx)
    if table is None:
        return
    ctx.parallel(lambda c: columns(ctx, table, *c), [(s, b) for s in ('fwd', 'bwd', 'm2m', 'own') for b in ('sqlite', 'mysql', 'postgresql')])


def migrations():
    d = os.path.join(project.REPO, 'denorm', 'migrations')
    if not os.path.isdir(d):
        raise NoVerdict('there is no directory of migrations')
    return sorted(f[:-3] for f in os.listdir(d) if f.endswith('.py') and f != '__init__.py')


def check_tables(ctx):
    got = {}
    names = migrations()

    def run(it, x):
        m = it.import_module('shapes.marker')
        got['model'] = it.freeze(it.call(it.getattr(m, 'table'), [], {}))
        for n in names:
            got[n] = it.freeze(it.call(it.getattr(m, 'migration'), [n], {}))
    x = ctx.extraction('marker', 'sqlite', run=run)
    r = ctx.ok_result(x, 'loading the marker table', 'marker')
    if r is None:
        return None
    if not names:
        raise NoVerdict('there are no migrations')
    name, together, managed, proxy, swapped, fields, m2m, parents, indexes = got['model']
    model = Description(name, fields, together)
    if proxy or parents or m2m:
        raise NoVerdict('the marker model is not a plain table')
    migrated = apply(ctx, names, got)
    for d, where in ((model, ['denorm/models.py']), (migrated, ['denorm/migrations/%s.py' % n for n in names])):
        fits(ctx, d, where, 'model' if d is model else 'migrations')
    ctx.ob(R_SAME, 2 + len(model.fields))
    here = ['denorm/models.py'] + ['denorm/migrations/%s.py' % n for n in names]
    if not managed:
        ctx.finding('%s:managed' % R_SAME, 'the marker model is not managed, so no migration is applied for it', ['denorm/models.py'])
    if model.name != migrated.name:
        ctx.finding('%s:name' % R_SAME, 'the marker table is %s in the model and %s in the migrations' % (model.name, migrated.name), here)
    if sorted(model.together) != sorted(migrated.together):
        ctx.finding('%s:together' % R_SAME, 'model and migrations have other unique column groups', here)
    for f in sorted(set(model.fields) | set(migrated.fields)):
        a, b = model.fields.get(f), migrated.fields.get(f)
        if a is None or b is None:
            ctx.finding('%s:%s' % (R_SAME, f), 'the field %s is only in the %s' % (f, 'model' if b is None else 'migrations'), here)
            continue
        for k in a:
            if a[k] != b[k] and str(a[k]).lower() != str(b[k]).lower():
                ctx.finding('%s:%s:%s' % (R_SAME, f, k), 'the %s of the field %s is %r in the model and %r in the migrations' % (k, f, a[k], b[k]), here)
    return [f['column'] for f in migrated.fields.values()]


class Description(object):
    def __init__(self, name, fields, together):
        self.name, self.together = name, list(together)
        self.fields = dict((n, dict(d)) for n, d in fields)


def apply(ctx, names, got):
    """Table after all migrations, in the order of their dependencies."""
    done, order = set(), []

    def visit(n, trail=()):
        if n in trail:
            raise NoVerdict('circular migrations')
        if n in done:
            return
        for dep in got[n][0]:
            if dep[0] == 'denorm':
                if dep[1] not in got:
                    raise NoVerdict('unknown migration %r' % (dep,))
                visit(dep[1], trail + (n,))
        done.add(n)
        order.append(n)
    for n in names:
        visit(n)
    t = None
    for n in order:
        for op in got[n][1]:
            kind = op[0]
            if kind == 'unknown':
                raise NoVerdict('migration %s contains an operation that is not understood: %s' % (n, op[1]))
            target = str(op[1]).lower() if len(op) > 1 else None
            if kind == 'CreateModel':
                if target == 'dirtyinstance':
                    t = Description(op[4] or 'denorm_dirtyinstance', op[2], op[3])
                continue
            if target != 'dirtyinstance' or t is None:
                continue
            if kind in ('AddField', 'AlterField'):
                t.fields[op[2][0]] = dict(op[2][1])
            elif kind == 'RemoveField':
                t.fields.pop(op[2], None)
            elif kind == 'RenameField':
                d = t.fields.pop(op[2], None)
                if d is not None:
                    if d['column'] in (op[2], op[2] + '_id'):
                        d['column'] = d['column'].replace(op[2], op[3], 1)
                    t.fields[op[3]] = d
            elif kind == 'AlterUniqueTogether':
                t.together = list(op[2])
            elif kind == 'AlterModelTable':
                t.name = op[2] or 'denorm_dirtyinstance'
            elif kind == 'DeleteModel':
                t = None
    if t is None:
        raise NoVerdict('no migration creates the marker table')
    return t


def fits(ctx, d, where, what):
    key = [n for n, f in d.fields.items() if f['column'] == 'object_id']
    ct = [n for n, f in d.fields.items() if f['column'] == 'content_type_id']
    ctx.ob(R_KEY, 4)
    if len(key) != 1 or len(ct) != 1:
        ctx.finding('%s:%s:columns' % (R_KEY, what), 'the marker table of the %s has not the two columns the triggers write' % what, where)
        return
    k, c = d.fields[key[0]], d.fields[ct[0]]
    if k['type'] != 'TextField':
        ctx.finding('%s:%s:type' % (R_KEY, what), 'the object key column of the %s is a %s%s, which cannot hold every key' % (
            what, k['type'], ' of length %s' % k['max_length'] if k['max_length'] else ''), where)
    if k['null'] is not True:
        ctx.finding('%s:%s:null' % (R_KEY, what), 'the object key column of the %s does not accept NULL' % what, where)
    if str(c['to']).lower() != 'contenttypes.contenttype':
        ctx.finding('%s:%s:to' % (R_KEY, what), 'the content type column of the %s refers to %s' % (what, c['to']), where)
    ctx.ob(R_FREE, 2 + len(d.fields))
    for n, f in sorted(d.fields.items()):
        if f['pk'] and f['type'] in ('AutoField', 'BigAutoField'):
            continue
        if f['unique'] or f['pk'] or f['unique_for'] or f['type'] == 'OneToOneField':
            ctx.finding('%s:%s:%s' % (R_FREE, what, n), 'the field %s of the %s is unique, so markers are rejected or merged' % (n, what), where)
        if n == key[0] and f['db_index']:
            ctx.finding('%s:%s:%s:index' % (R_FREE, what, n), 'the %s indexes the object key, and an index entry cannot hold every key' % what, where)
        if n not in (key[0], ct[0]) and not f['null']:
            ctx.finding('%s:%s:%s:required' % (R_FREE, what, n), 'the column %s of the %s must be given, but the triggers do not write it' % (f['column'], what), where)
    if d.together:
        ctx.finding('%s:%s:together' % (R_FREE, what), 'the %s makes the columns %s unique together' % (what, ', '.join(map(str, d.together[0]))), where)


def inserts(n, out):
    if isinstance(n, N):
        if n.op == 'insert':
            out.append(n)
        for a in n.a:
            inserts(a, out)
        for v in list(n.__dict__.values()):
            if isinstance(v, (N, list, tuple)) and v is not n.a:
                inserts(v, out)
    elif isinstance(n, (list, tuple)):
        for x in n:
            inserts(x, out)
    return out


def columns(ctx, table, shape, backend):
    p = ctx.program(shape, backend)
    if p is None:
        return
    seen = 0
    for t in p.triggers:
        for n in inserts(t.body, []):
            target = p.schema.table(n.a[0].a[0])
            if target is None or target.label != MARKER:
                continue
            seen += 1
            ctx.ob(R_COLS)
            cols = [target.find(c.a[0]) for c in n.a[1]] if n.a[1] is not None else list(target.cols)
            names = [c.column if c is not None else None for c in cols]
            if sorted(map(str, names)) != ['content_type_id', 'object_id']:
                ctx.finding('%s:%s/%s' % (R_COLS, shape, backend), 'a trigger on %s writes the marker columns %s' % (t.table, ', '.join(map(str, names))), [n.src] if n.src else [])
            elif not set(names) <= set(table):
                ctx.finding('%s:%s/%s' % (R_COLS, shape, backend), 'a trigger on %s writes columns the migrations do not create' % t.table, [n.src] if n.src else [])
    if not seen:
        raise NoVerdict('no trigger of %s on %s inserts markers' % (shape, backend))
