#!/usr/bin/env python3
"""Runs the property-based checks of one property.

usage: check.py ID quick|thorough
       check.py ID --replay FILE
       check.py --setup            (builds every harness)
exit 0: held on everything explored; 1: violation; 2: could not decide (build failure, harness trouble)
"""
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
from jobs import JOBS, FINDINGS, RULES, ASSUME, PREPARE

ENV = dict(ARMCI_NONCOLLECTIVE_GROUPS='1', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1',
           OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_pml='ob1',
           OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm='isolated',
           OMPI_MCA_plm_rsh_agent='', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', OMPI_MCA_opal_signal='',
           HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC',
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0',
           UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1')
CASE_TIMEOUT = 40
T0 = time.time()
LIMIT = {'quick': 780, 'thorough': 3300}


def env():
    e = {k: v for k, v in os.environ.items() if not (k.startswith('OMPI_') or k.startswith('PMIX_'))}
    e.update(ENV)
    return e


class Proc:
    """one harness run in its own scratch directory"""
    def __init__(self, job, bdir, root, tag, args, timeout):
        self.job = job
        self.dir = os.path.join(root, tag)
        os.makedirs(self.dir)
        self.out = os.path.join(self.dir, 'out')
        exe = os.path.join(bdir, job['harness'])
        cmd = ['/usr/bin/mpiexec', '-n', str(job['ranks']), exe, '--prop', job['prop'], '--timeout', str(job.get('timeout', CASE_TIMEOUT)),
               '--out', self.out, '--scratch', self.dir] + [str(a) for a in args]
        e = env()
        e['TMPDIR'] = root
        self.err = open(os.path.join(self.dir, 'stderr'), 'wb')
        self.so = open(os.path.join(self.dir, 'stdout'), 'wb')
        self.timeout = timeout
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, cwd=self.dir, env=e, stdout=self.so, stderr=self.err, stdin=subprocess.DEVNULL, start_new_session=True)
        self.timedout = False

    def wait(self):
        try:
            self.rc = self.p.wait(timeout=self.timeout)
        except subprocess.TimeoutExpired:
            self.timedout = True
            self.kill()
            self.rc = self.p.wait()
        self.kill()
        self.err.close()
        self.so.close()
        self.res = None
        try:
            self.res = json.load(open(self.out + '.json'))
        except Exception:
            pass
        return self

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def tail(self, n=1500):
        t = ''
        for f in ('stderr', 'stdout'):
            try:
                b = open(os.path.join(self.dir, f), 'rb').read()
                if len(b) > 200000:
                    b = b[-200000:]
                t += b.decode('utf8', 'replace')
            except OSError:
                pass
        return t[-n:]

    def log(self):
        try:
            b = open(self.out + '.log', 'rb').read()
            idx, n = struct.unpack('QQ', b[:16])
            return idx, list(struct.unpack('%dQ' % n, b[16:16 + 8 * n]))
        except Exception:
            return None

    def verdict(self):
        """('ok'|'fail'|'crash'|'hang'|'infra', key, msg)"""
        if self.res is not None and self.rc == 0:
            if self.res['failed']:
                return 'fail', self.res['key'], self.res['msg']
            return 'ok', '', ''
        t = self.tail(200000)
        if 'PBT-HANG' in t:
            return 'hang', 'hang', 'the case did not finish within %d s' % self.job.get('timeout', CASE_TIMEOUT)
        if self.timedout:
            return 'hang', 'hang-run', 'the run did not finish within %d s' % self.timeout
        if self.res is not None:
            # results are complete, the process ended badly in MPI/GA/PETSc shutdown
            return ('fail' if self.res['failed'] else 'ok'), self.res.get('key', ''), self.res.get('msg', '')
        if self.log() is None:
            return 'infra', 'infra', self.tail()
        return 'crash', 'crash', 'program ended with status %d: %s' % (self.rc, self.tail(700))


def signature(p):
    """what kind of crash it was, so that shrinking keeps the same failure"""
    t = p.tail(200000)
    for rx in (r'AddressSanitizer: ([\w-]+)', r'runtime error: ([a-z -]+)', r'PBT-[A-Z-]+[^\n]{0,60}', r'(ARMCI|GA)[^\n]*(rror|ssert)[^\n]{0,40}', r'Assertion [^\n]{0,60}',
               r'terminate called[^\n]{0,60}', r'\[0\]PETSC ERROR: [^\n]{0,50}', r'Signal: [^\n]{0,40}', r'signal (\d+)'):
        m = re.search(rx, t)
        if m:
            return re.sub(r'\d+', '#', m.group(0))
    return 'status %s' % p.rc


def clean(d):
    if d and d.startswith(tempfile.gettempdir() + '/gpv-'):
        shutil.rmtree(d, ignore_errors=True)


class Session:
    def __init__(self, prop):
        self.prop = prop
        self.root = tempfile.mkdtemp(prefix='gpv-%s-' % prop)
        os.chmod(self.root, 0o755)
        self.n = 0
        self.lock = threading.Lock()
        self.dirs = {}

    def tag(self):
        with self.lock:
            self.n += 1
            return 'r%d' % self.n

    def run(self, job, args, timeout):
        return Proc(job, self.dirs[job.get('flavor', 'plain')], self.root, self.tag(), args, timeout).wait()

    def replay(self, job, choices, shrink=0, timeout=None):
        f = os.path.join(self.root, self.tag() + '.choices')
        open(f, 'w').write(' '.join(map(str, choices)) + '\n')
        tmo = job.get('timeout', CASE_TIMEOUT)
        return self.run(job, ['--replay', f, '--shrink', shrink], timeout or (tmo + 40 + shrink))


def confirm(s, job, p, deadline):
    """p failed; return a dict describing a reproducible violation, or None"""
    kind, key, msg = p.verdict()
    if kind == 'fail':
        choices, case = p.res['choices'], p.res.get('case', '')
    else:
        lg = p.log()
        if lg is None:
            return None
        choices, case = lg[1], ''
    first = (kind, key, msg)
    hits, sig = 0, None
    for k in range(5):
        if time.time() > deadline and hits:
            break
        r = s.replay(job, choices)
        v = r.verdict()
        if v[0] in ('fail', 'crash', 'hang'):
            hits += 1
            if v[0] == 'crash':
                sig = signature(r)
                msg = v[2]
            if v[0] == 'fail':
                case = r.res.get('case', case)
                msg = v[2]
                key = v[1]
            shutil.rmtree(r.dir, ignore_errors=True)
            if hits >= 2:
                break
        shutil.rmtree(r.dir, ignore_errors=True)
    v = dict(kind=kind, key=key, msg=msg, case=case, choices=choices, mode='case', reproduced=hits)
    if hits:
        if kind == 'crash' and hits >= 2:
            shrink_crash(s, job, v, sig, min(deadline, time.time() + 60))
        return v
    # depends on what ran before in the same process: rerun the stream from the start
    for k in range(2):
        r = s.run(job, p.args, p.timeout)
        w = r.verdict()
        if w[0] in ('fail', 'crash', 'hang') and w[1] == first[1]:
            v.update(mode='stream', args=p.args, reproduced=1)
            return v
        if time.time() > deadline:
            break
    return None


def shrink_crash(s, job, v, sig, deadline):
    best = list(v['choices'])
    def bad(c):
        r = s.replay(job, c)
        w = r.verdict()
        same = w[0] == 'crash' and signature(r) == sig
        if same:
            v['msg'] = w[2]
        shutil.rmtree(r.dir, ignore_errors=True)
        return same
    k = max(1, len(best) // 2)
    while k >= 1 and time.time() < deadline:
        i, prog = 0, False
        while i + k <= len(best) and time.time() < deadline:
            c = best[:i] + best[i + k:]
            if bad(c):
                best, prog = c, True
            else:
                i += k
        if not prog:
            k //= 2
    v['choices'] = best


def match_finding(prop, key):
    for f in FINDINGS:
        if f['property'] == prop and key in f['keys']:
            return f
    return None


def known_file():
    """the committed list: {id: [slug,...]} of findings that may be reported as known"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property='):
                w = l.split(None, 3)
                out.setdefault(w[1].split('=')[1], {})[w[2]] = w[3] if len(w) > 3 else ''
    return out


def write_replay(prop, job, v):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps([job['prop'], job['ranks'], v['choices']]).encode()).hexdigest()[:10]
    f = os.path.join(d, '%s-%s.json' % (prop, h))
    o = dict(property=prop, job={k: job[k] for k in ('harness', 'prop', 'ranks', 'flavor', 'timeout') if k in job}, **v)
    json.dump(o, open(f, 'w'), indent=1)
    return f


def setup(props, tier='quick'):
    need = {}
    for p in props:
        for j in JOBS[p]:
            if tier == 'quick' and j.get('tier') == 'thorough':
                continue
            need.setdefault(j.get('flavor', 'plain'), set()).add(j['harness'])
        for f in FINDINGS:
            if f['property'] == p:
                need.setdefault('plain', set()).add(f['probe']['harness'])
    dirs = {}
    for fl, hs in need.items():
        rc, out, d = B.build(sorted(hs), fl)
        if rc:
            sys.stdout.write(out[-6000:])
            print('BUILD-FAILED flavor=%s' % fl)
            return None
        dirs[fl] = d
    return dirs


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        return 0 if setup(list(JOBS)) else 2
    prop, tier = a[0], (a[1] if len(a) > 1 else 'quick')
    if tier == '--replay':
        return replay_main(prop, a[2])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    dirs = setup([prop], tier)
    if dirs is None:
        return 2
    tb = time.time() - T0
    s = Session(prop)
    s.dirs = dirs
    try:
        return decide(s, prop, tier, seed, tb)
    finally:
        clean(s.root)


def decide(s, prop, tier, seed, tb):
    end = T0 + LIMIT[tier]
    runs, queue = [], []
    for ji, j in enumerate(JOBS[prop]):
        if tier == 'quick' and j.get('tier') == 'thorough':
            continue
        shards = j.get('shards', 1) if tier == 'quick' else j.get('tshards', max(j.get('shards', 1), 8 // j['ranks']))
        cases = j['cases'] if tier == 'quick' else j.get('tcases', j['cases'] * 30 // shards)
        secs = j.get('secs', 60) if tier == 'quick' else j.get('tsecs', 400)
        for k in range(shards):
            sd = seed * 1000003 + ji * 1009 + k * 17
            args = ['--seed', sd, '--cases', cases, '--seconds', secs, '--shrink', 40]
            if j.get('fixed'):
                args += ['--fixed', 1]
            queue.append((j, args, secs + 40 + 2 * j.get('timeout', CASE_TIMEOUT)))
    queue.sort(key=lambda q: -q[0]['ranks'])
    done, cond, used, stop = [], threading.Condition(), [0], [False]

    def work(j, args, to):
        try:
            p = s.run(j, args, to)
            p.args = args
            v = p.verdict()
            if v[0] == 'infra':
                p2 = s.run(j, args, to)
                p2.args = args
                p = p2
        except Exception as e:
            p = None
        with cond:
            used[0] -= j['ranks']
            done.append((j, p))
            if p is not None and p.verdict()[0] in ('fail', 'crash', 'hang'):
                stop[0] = True
            cond.notify()
    ths = []
    with cond:
        while queue and not stop[0] and time.time() < end - 60:
            i = next((i for i, q in enumerate(queue) if used[0] + q[0]['ranks'] <= 8 or used[0] == 0), None)
            if i is None:
                cond.wait(5)
                continue
            j, args, to = queue.pop(i)
            used[0] += j['ranks']
            t = threading.Thread(target=work, args=(j, args, to))
            t.start()
            ths.append(t)
        while used[0]:
            cond.wait(5)
    for t in ths:
        t.join()
    ev, sub, dist, samples, labels = 0, 0, 0, [], {}
    broken, viol, unrepro = [], [], []
    for j, p in done:
        if p is None:
            broken.append('driver exception')
            continue
        if p.res:
            r = p.res
            ev += r['evaluations'] + r['sub']
            dist += r['distinct']
            for x in r['samples']:
                if len(samples) < 12:
                    samples.append('%s ranks=%d: %s' % (j['prop'], j['ranks'], x))
            for k, n in r['labels'].items():
                labels[k] = labels.get(k, 0) + n
            if r['distinct'] == 0 and not r['failed'] and not j.get('maybe_trivial'):
                broken.append('%s ranks=%d: no non-trivial case' % (j['prop'], j['ranks']))
    order = {'fail': 0, 'crash': 1, 'hang': 2}
    bad = [(j, p) for j, p in done if p is not None and p.verdict()[0] in order]
    bad.sort(key=lambda x: order[x[1].verdict()[0]])
    for j, p in done:
        if p is not None and p.verdict()[0] == 'infra':
            broken.append('%s ranks=%d: %s' % (j['prop'], j['ranks'], p.tail(600)))
    for j, p in bad:
        v = confirm(s, j, p, end - 60)
        if v is None:
            unrepro.append('%s: %s' % (j['prop'], p.verdict()[1:]))
            continue
        f = write_replay(prop, j, v)
        viol.append((f, j, v))
        break
    known = known_file().get(prop, {})
    kf = []
    for f in FINDINGS:
        if f['property'] != prop or f['slug'] not in known:
            continue
        p = s.replay(f['probe'], f['probe'].get('choices', []))
        k = p.verdict()
        if k[0] in order:
            if k[1] in f['keys'] or k[0] in f['keys']:
                kf.append((f['slug'], known[f['slug']]))
                print('KNOWN-FINDING: property=%s %s' % (prop, known[f['slug']]))
            else:
                v = dict(kind=k[0], key=k[1], msg=k[2], case='probe of ' + f['slug'], choices=f['probe'].get('choices', []), mode='case', reproduced=1)
                viol.append((write_replay(prop, f['probe'], v), f['probe'], v))
        elif k[0] == 'infra':
            broken.append('probe %s: %s' % (f['slug'], k[2][-300:]))
    e = dict(property=prop, tier=tier, seed=seed, level='exploration',
             coverage=dict(evaluations=ev, distinct_nontrivial=dist, rule=RULES[prop], samples=samples,
                           labels=labels),
             wall_s=round(time.time() - T0, 2), violations=len(viol), assumptions=ASSUME.get(prop, []),
             build_s=round(tb, 2), runs=[dict(prop=j['prop'], ranks=j['ranks'], outcome=p.verdict()[0] if p else 'none',
                                              cases=(p.res or {}).get('evaluations'), wall=(p.res or {}).get('wall')) for j, p in done])
    if kf:
        e['known_findings'] = ['%s: %s' % x for x in kf]
    if unrepro:
        e['unreproduced'] = unrepro
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
    json.dump(e, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    print('%s %s: %d evaluations, %d distinct non-trivial, %.1fs (build %.1fs)' % (prop, tier, ev, dist, time.time() - T0, tb))
    for f, j, v in viol:
        print('  %s (ranks=%d, %s): %s' % (j['prop'], j['ranks'], v['key'], v['msg'][:1500]))
        if v['case']:
            print('  case: %s' % v['case'][:1500])
        print('VIOLATION property=%s replay=%s' % (prop, f))
    if viol:
        return 1
    for u in unrepro:
        print('UNREPRODUCED %s' % u)
    if broken:
        for b in broken:
            print('CHECK-BROKEN %s' % b)
        return 2
    return 0


def replay_main(prop, path):
    o = json.load(open(path))
    j = o['job']
    rc, out, d = B.build([j['harness']], j.get('flavor', 'plain'))
    if rc:
        print(out[-3000:])
        return 2
    s = Session(prop)
    s.dirs = {j.get('flavor', 'plain'): d}
    try:
        if o.get('mode') == 'stream':
            p = s.run(j, o['args'], 900)
        else:
            p = s.replay(j, o['choices'])
        v = p.verdict()
        if p.res and p.res.get('samples'):
            print('case: ' + p.res['samples'][0])
        print(v[0], v[1], v[2])
        if v[0] in ('fail', 'crash', 'hang'):
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        return 0 if v[0] == 'ok' else 2
    finally:
        clean(s.root)


if __name__ == '__main__':
    sys.exit(main())
