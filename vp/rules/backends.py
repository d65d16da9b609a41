"""Choice and completeness of the trigger backends."""
from ..core import NoVerdict
from ..extract import Extraction
from ..interp import Ev, trace_list
from ..traces import functions, flat_all

R_PICK = 'engine-gets-its-backend'
R_OVER = 'setting-overrides'
R_REJECT = 'unsupported-engine-rejected'
R_PARTS = 'every-part-rendered'

ENGINES = (
    ('sqlite', 'django.db.backends.sqlite3', 'sqlite3'),
    ('mysql', 'django.db.backends.mysql', 'mysql'),
    ('mysql', 'django.contrib.gis.db.backends.mysql', 'mysql'),
    ('postgresql', 'django.db.backends.postgresql', 'postgresql'),
    ('postgresql', 'django.db.backends.postgresql_psycopg2', 'postgresql'),
    ('postgresql', 'django.contrib.gis.db.backends.postgis', 'postgresql'),
    ('postgresql', 'company.backends.postgresql', 'postgresql'),
)
UNSUPPORTED = ('django.db.backends.oracle', 'django.db.backends.dummy', 'sql_server.pyodbc', 'django.contrib.gis.db.backends.spatialite')
PARTS = ('random', 'nested', 'insert', 'insert-nested', 'update', 'update-random', 'trigger-insert', 'trigger-update', 'trigger-delete', 'set', 'drop')


def backends(ctx):
    ctx.rule(R_PICK, 'for each engine name the imported trigger module is the one of that database')
    ctx.rule(R_OVER, 'with a backend given in the database settings that one is imported, whatever the engine')
    ctx.rule(R_REJECT, 'for an engine without trigger module, importing ends in an import error')
    ctx.rule(R_PARTS, 'for each backend every trigger part renders to text, and a trigger set executes statements for installing and dropping')
    cases = [('pick', b, e, None, w) for b, e, w in ENGINES]
    cases += [('pick', 'sqlite', e, 'denorm.db.' + o, o) for e in ('django.db.backends.oracle', 'django.db.backends.sqlite3', 'django.db.backends.postgresql', 'company.db')
              for o in ('sqlite3', 'mysql', 'postgresql')]
    cases += [('pick', 'sqlite', e, o, o) for e in ('django.db.backends.sqlite3', 'django.contrib.gis.db.backends.postgis', 'company.db')
              for o in ('project.engines.sqlite3', 'project.engines.postgis', 'project.engines.special')]
    cases += [('reject', e, o) for e in UNSUPPORTED for o in (None,)] + [('reject', 'django.db.backends.sqlite3', o) for o in ('denorm.db.oracle', 'company.sqlite3')]
    cases += [('part', b, p) for b in ('sqlite', 'mysql', 'postgresql') for p in PARTS]
    ctx.parallel(lambda c: {'pick': pick_case, 'reject': reject_case, 'part': part_case}[c[0]](ctx, *c[1:]), cases)


def imported(ctx, backend, engine, override):
    got = {}

    def run(it, x):
        m = it.import_module('denorm.db')
        t = it.getattr(m, 'triggers')
        got['name'] = it.freeze(it.getattr(t, '__name__'))
    cfg = {'engine': engine}
    if override:
        cfg['database'] = {'DENORM_BACKEND': override}
    x = ctx.extraction(None, backend, config=cfg, run=run)
    return x, got


def pick_case(ctx, backend, engine, override, want):
    x, got = imported(ctx, backend, engine, override)
    key = '%s:%s%s' % (R_OVER if override else R_PICK, engine, ':' + override if override else '')
    r = ctx.ok_result(x, 'importing the trigger backend for the engine %s%s' % (engine, ' and the setting ' + override if override else ''), key)
    ctx.ob(R_OVER if override else R_PICK)
    if r is None:
        return
    if got.get('name') != ('%s.triggers' if '.' in want else 'denorm.db.%s.triggers') % want:
        ctx.finding(key, 'the engine %s%s gets the trigger module %s' % (engine, ' with the setting ' + override if override else '', got.get('name')), ['denorm/db/__init__.py'])
    else:
        ctx.sample('%s%s -> %s' % (engine, '' if not override else ' + ' + override, got['name']))


def reject_case(ctx, engine, override):
    x, got = imported(ctx, 'sqlite', engine, override)
    ctx.ob(R_REJECT)
    for r in x.results:
        if r.kind != 'raise':
            ctx.finding('%s:%s' % (R_REJECT, override or engine), 'the unsupported engine %s is accepted with the trigger module %s' % (override or engine, got.get('name')), ['denorm/db/__init__.py'])
        elif r.error()[0] not in ('ImportError', 'ModuleNotFoundError', 'ImproperlyConfigured'):
            ctx.finding('%s:%s' % (R_REJECT, override or engine), 'the unsupported engine %s fails with %s' % (override or engine, r.error()[0]), ['denorm/db/__init__.py'])


def part_case(ctx, backend, part):
    got = {}

    def run(it, x):
        got['v'] = it.freeze(it.call(it.getattr(it.import_module('shapes.parts'), 'render'), [part], {}))
    x = ctx.extraction('parts', backend, run=run)
    key = '%s:%s:%s' % (R_PARTS, backend, part)
    ctx.ob(R_PARTS)
    r = ctx.ok_result(x, 'rendering the %s part on %s' % (part, backend), key)
    if r is None:
        return
    here = functions(x.it, 'sql', 'install', 'drop')
    v = got.get('v')
    if part in ('set', 'drop'):
        evs = trace_list(r.state.trace)
        at = [i for i, e in enumerate(evs) if isinstance(e, Ev) and e.name == 'parts.begin']
        ran = [e for e, loops in flat_all(evs[at[0]:], {}, ()) if e.name == 'execute']
        if not ran:
            ctx.finding(key, '%s on %s executes nothing' % ('installing' if part == 'set' else 'dropping', backend), here)
    elif v is None or v == '' or v == ('list',) or (isinstance(v, tuple) and v and v[0] in (None, '')):
        ctx.finding(key, 'the %s part renders to nothing on %s' % (part, backend), here)
    else:
        ctx.sample('%s %s' % (backend, part))
