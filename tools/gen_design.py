"""Prints the table of planted bugs for DESIGN.md."""
import json
import os

here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
rows = []
for name in os.listdir(here):
    m = json.load(open(os.path.join(here, name, 'meta.json')))
    rows.append((m['property'], name, m['needs']))
print('| bug | needs | caught by |\n|---|---|---|')
for p, name, needs in sorted(rows):
    print('| `%s` | %s | %s |' % (name, needs, p))
