#!/usr/bin/env python3
"""Try planted changes: plant.py [--demo|--tests|--check]... ID...

Works in an overlay of /repo and /verif inside a user+mount namespace, so nothing real changes.
Without options all three are done. Development tool; no check uses it."""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
opts = [a for a in sys.argv[1:] if a.startswith('--')]
ids = [a for a in sys.argv[1:] if not a.startswith('--')]
allo = not opts
SCRIPT = r'''
set -u
mount -t overlay overlay -o userxattr,lowerdir=/repo,upperdir=$T/ru,workdir=$T/rw /repo || exit 90
mount -t overlay overlay -o userxattr,lowerdir=/verif,upperdir=$T/vu,workdir=$T/vw /verif || exit 90
export VERIF_SEED=1 VERIF_TIER=quick
cd /repo
cp -a $S $T/d
rm -f $T/d/*.diff $T/d/meta.json
if [ $DEMO = 1 ]; then
  if [ ! -f $T/skip0 ]; then
  timeout 300 bash $T/d/demo.sh > $T/demo0.log 2>&1; echo "demo unchanged: $?"
  fi
fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
if [ $DEMO = 1 ] || [ $TESTS = 1 ]; then
  bash /opt/vp/build.sh > $T/build.log 2>&1 || { echo "BUILD FAILED"; tail -20 $T/build.log; exit 1; }
fi
if [ $DEMO = 1 ]; then timeout 300 bash $T/d/demo.sh > $T/demo1.log 2>&1; echo "demo patched: $?"; tail -3 $T/demo1.log | cut -c1-200; fi
if [ $CHECK = 1 ]; then python3 /verif/tools/check.py $PROP quick > $T/check.log 2>&1; echo "check $PROP: $?"; tail -3 $T/check.log | cut -c1-300; fi
if [ $TESTS = 1 ]; then bash /opt/vp/test.sh $T/tests.json > $T/tests.log 2>&1; echo "tests: $?"; fi
'''
def on(x): return '1' if allo or '--' + x in opts else '0'
for i in ids:
    s = os.path.join(V, 'seeded', i)
    m = json.load(open(os.path.join(s, 'meta.json')))
    t = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    for x in ('ru', 'rw', 'vu', 'vw'):
        os.mkdir(os.path.join(t, x))
    e = dict(os.environ, T=t, S=s, PROP=m['property'], DEMO=on('demo'), TESTS=on('tests'), CHECK=on('check'))
    print('== %s (%s)' % (i, m['property']), flush=True)
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c', SCRIPT], env=e)
    if on('tests') == '1' and os.path.exists(t + '/tests.json'):
        res = json.load(open(t + '/tests.json'))
        st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        p = res.get('passed', res)
        p = set(p) if isinstance(p, list) else {k for k, v in p.items() if v in (True, 'passed', 'pass', 'ok')}
        miss = [x for x in st if x not in p]
        print('tests missing: %d %s' % (len(miss), miss[:5]))
    for f in ('tests.json', 'tests.log', 'demo0.log', 'demo1.log', 'check.log', 'build.log'):
        if os.path.exists(os.path.join(t, f)):
            shutil.copy(os.path.join(t, f), '/tmp/plant.%s.%s' % (i, f))
    subprocess.run(['unshare', '-Ur', 'rm', '-rf', t]) if t.startswith('/tmp/plant-') else None
