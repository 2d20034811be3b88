#!/usr/bin/env python3
"""seed.py ID PROP NP FILE needs breaks < edit script on stdin:
first part: OLD text, a line with only ====, NEW text, a line with only #### then demo.cpp (optional)"""
import os, subprocess, sys
i, prop, np_, f, needs, breaks = sys.argv[1:7]
t = sys.stdin.read()
edit, demo = t.split('\n####\n', 1)
import json
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
patch = ''
p = '/repo/src/' + f
s = open(p).read(); o = s
for e in edit.split('\n@@@@\n'):
    a, b = e.split('\n====\n')
    assert s.count(a) == 1, (s.count(a), a)
    s = s.replace(a, b)
tmp = '/tmp/seed.tmp'
open(tmp, 'w').write(s)
r = subprocess.run(['diff', '-u', '--label', 'a/src/' + f, '--label', 'b/src/' + f, p, tmp], stdout=subprocess.PIPE, text=True)
open(d + '/patch.diff', 'w').write(r.stdout)
open(d + '/demo.sh', 'w').write(open('/verif/tools/demo_template.sh').read().replace('@NP@', np_))
open(d + '/demo.cpp', 'w').write(demo)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
