"""Writes /verif/MANIFEST.json from the table of built checks."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
try:
    from vp.checks import CLAIMS
except ImportError:
    CLAIMS = {}
NA = {
    'C90': "Termination and fixpoint values depend on the user's callback functions and on the data; no shape of the library's source decides them.",
    'C91': "Quantifies over interleavings of concurrent transactions and isolation levels; the marker deletion is correct or not depending on the schedule, which is not visible in the source (the race window that exists is described in DESIGN.md).",
    'C92': "Statistical property of random number generators in Python and three database engines.",
    'C93': "MySQL commits DDL implicitly; whether earlier triggers survive a failing statement is decided by the engine, not by the source.",
}
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
na = []
for i in ids:
    if i in CLAIMS:
        c = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='python3 -m vp.run %s' % i,
                           evidence_file='evidence/%s.json' % i, technique=c['technique'], level='other',
                           level_note=c['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check built yet.')))
m = dict(version=1, setup_cmd='python3 -m vp.setup' if CLAIMS else 'true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
