#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, properties.jsonl, the texts below, the known findings and seeded/results.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from jobs import JOBS, RULES
from design_text import TEXT, TAIL
out = open(os.path.join(HERE, 'design_head.md')).read().replace('@@PROPS@@', '').rstrip() + '\n\n## The properties\n'
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    out += '\n### %s – %s\n' % (i, p['title'])
    out += TEXT.get(i, 'Not claimed: see MANIFEST.json.').strip() + '\n'
    if i in JOBS:
        out += 'Quick tier: ' + ', '.join('%s with %d process%s (up to %d cases per shard)' % (j['harness'], j['ranks'], 'es' if j['ranks'] > 1 else '', j['cases']) for j in JOBS[i]) + '. '
        out += 'Non-trivial: %s.\n' % RULES[i]
out += '\n## Findings on the pinned tree\n\nRepaired in /repo ("fix:" commits) or recorded in `known-findings.txt`:\n\n'
for l in open(os.path.join(V, 'known-findings.txt')):
    if l.startswith(('fixed:', 'finding:')):
        out += '* ' + l.strip() + '\n'
out += '\n## Planted changes\n\nEach change under `seeded/` compiles, passes the stable tests and breaks the named property. The check that catches it is the check of the property.\n\n| change | property | needs | caught by quick |\n|---|---|---|---|\n'
r = {}
rp = os.path.join(V, 'seeded', 'results.json')
if os.path.exists(rp):
    r = json.load(open(rp))
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    mp = os.path.join(V, 'seeded', d, 'meta.json')
    if os.path.exists(mp):
        m = json.load(open(mp))
        out += '| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'], r.get(d, '?'))
out += '\n' + TAIL.strip() + '\n'
open(os.path.join(V, 'DESIGN.md'), 'w').write(out)
