#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py (one check per property with jobs)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from jobs import JOBS, RULES
V = os.path.dirname(HERE)
try:
    from jobs import TECH, NOTES, NOTCLAIMED
except ImportError:
    TECH, NOTES, NOTCLAIMED = {}, {}, {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/check.py --setup', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in JOBS:
        ranks = sorted({j['ranks'] for j in JOBS[i]})
        m['checks'].append(dict(
            property=i, quick_cmd='python3 tools/check.py %s quick' % i, thorough_cmd='python3 tools/check.py %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=TECH.get(i, 'property-based testing: generated cases against a reference model, shrinking'),
            level='exploration',
            level_note=NOTES.get(i, 'Seeded random cases on %s MPI processes against an independent model; a case counts as non-trivial when %s. '
                             'Assurance is that of the cases generated (see evidence); trusts the model in the harness, MPI, GA, PETSc and Boost.'
                             % ('/'.join(map(str, ranks)), RULES[i]))))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOTCLAIMED.get(i, 'not claimed yet: the harness for it is not built')))
m['notes'] = 'No hooks are needed in /repo. DESIGN.md describes the machinery; known-findings.txt lists findings and fixes.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print('%d checks, %d not applicable' % (len(m['checks']), len(m['not_applicable'])))
