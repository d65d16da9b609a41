"""python3 -m vp.run <property>: decide one property from the project's current source."""
import json
import os
import sys
import time
import traceback
sys.setrecursionlimit(20000)


def main(argv):
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(run(argv)))
    t.start()
    t.join()
    return out[0] if out else 3


def run(argv):
    from . import core, checks
    from .interp import Unsupported
    from .sqlparse import SqlUnknown, SqlError
    prop = argv[0]
    if prop not in checks.CLAIMS:
        print('no check for %s' % prop)
        return 2
    started = time.time()
    ctx = core.Ctx(prop)
    os.makedirs(core.EVIDENCE, exist_ok=True)
    error = None
    try:
        checks.CLAIMS[prop]['fn'](ctx)
        if not ctx.findings:
            for r in ctx.rules:
                if not ctx.obligations[r]:
                    raise core.NoVerdict('rule "%s" was not applied to anything' % r)
    except (core.NoVerdict, Unsupported, SqlUnknown) as e:
        error = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VP_DEBUG'):
            traceback.print_exc()
    except SqlError as e:
        error = 'SqlError: %s at %s' % (e, e.src)
    except Exception as e:
        error = '%s: %s' % (type(e).__name__, e)
        traceback.print_exc()
    known = core.known_findings(prop)
    new = [f for f in ctx.findings.values() if f.key not in known]
    old = [f for f in ctx.findings.values() if f.key in known]
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[f.key]))
    replay = os.path.join(core.EVIDENCE, '%s.report.txt' % prop)
    with open(replay, 'w') as fh:
        fh.write(report(ctx, new, old, error))
    ev = {
        'property': prop,
        'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': checks.CLAIMS[prop]['note'],
            'rules': ctx.rules,
            'obligations': dict(ctx.obligations),
            'obligations_total': sum(ctx.obligations.values()),
            'functions_analysed': len(ctx.functions),
            'functions': sorted('%s:%s' % f for f in ctx.functions if str(f[0]).startswith('denorm')),
            'counts': dict(ctx.counts),
            'samples': ctx.samples,
            'known_findings_seen': [f.key for f in old],
        },
        'wall_s': round(time.time() - started, 2),
        'assumptions': sorted(ctx.assumptions),
        'violations': [{'rule': f.key, 'what': f.msg, 'where': f.locs} for f in new],
    }
    if error:
        ev['coverage']['error'] = error
    with open(os.path.join(core.EVIDENCE, '%s.json' % prop), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    if new:
        for f in new[:20]:
            print('%s: %s%s' % (f.key, f.msg, ' at ' + ', '.join(f.locs[:4]) if f.locs else ''))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if error:
        print('NO VERDICT property=%s %s' % (prop, error))
        return 2
    print('%s held: %d obligations, %d functions, %.1fs' % (prop, sum(ctx.obligations.values()), len(ctx.functions), time.time() - started))
    return 0


def report(ctx, new, old, error):
    out = ['property %s' % ctx.prop]
    if error:
        out.append('no verdict: %s' % error)
    for r, t in ctx.rules.items():
        out.append('rule %s: %s (%d obligations)' % (r, t, ctx.obligations[r]))
    for title, fs in (('VIOLATIONS', new), ('KNOWN FINDINGS', old)):
        if fs:
            out.append('')
            out.append(title)
        for f in fs:
            out.append('')
            out.append('[%s] %s' % (f.key, f.msg))
            for l in f.locs:
                out.append('    at %s' % l)
            if f.detail:
                out.append('\n'.join('      ' + x for x in str(f.detail).splitlines()))
    return '\n'.join(out) + '\n'


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
