"""Properties of the Go node: builds a test binary from the Go sources in
/repo's working tree, the stand-ins in go/stubs and the harness in go/props,
runs its facets in several processes and merges what they report."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GO = os.path.join(HERE, 'go')
SKIP = {'cmd', 'testsuite', 'node_modules', 'javaee', 'pyee', 'sdk', 'doc', 'docker'}
PROCS = 8


def repo():
    return os.environ.get('PBT_REPO', '/repo')


def prop_dir(prop):
    return os.path.join(GO, 'props', prop.lower())


def is_go(prop):
    return bool(re.fullmatch(r'[A-Za-z0-9]+', prop or '')) and os.path.isdir(prop_dir(prop))


def copy_sources(dst):
    src = repo()
    for d, dirs, files in os.walk(src):
        rel = os.path.relpath(d, src)
        if rel == '.':
            dirs[:] = [x for x in dirs if x not in SKIP and not x.startswith('.')]
        dirs[:] = [x for x in dirs if x != 'testdata' and x != 'legacy']
        gos = [f for f in files if f.endswith('.go') and not f.endswith('_test.go')]
        if gos:
            t = os.path.normpath(os.path.join(dst, rel))
            os.makedirs(t, exist_ok=True)
            for f in gos:
                shutil.copyfile(os.path.join(d, f), os.path.join(t, f))


def modules():
    out = []
    stubs = os.path.join(GO, 'stubs')
    for d, dirs, files in os.walk(stubs):
        if 'go.mod' in files:
            m = os.path.relpath(d, stubs)
            v = 'v0.0.0'
            if re.search(r'/v4$', m):
                v = 'v4.0.0'
            elif re.search(r'\.v2$', m):
                v = 'v2.0.0'
            out.append((m, v, d))
    return sorted(out)


def make_tree(scratch, props):
    tree = os.path.join(scratch, 'tree')
    os.makedirs(tree)
    copy_sources(tree)
    t = os.path.join(tree, 'zzpbt')
    os.makedirs(t)
    shutil.copytree(os.path.join(GO, 'kit'), os.path.join(t, 'kit'))
    lib = os.path.join(GO, 'lib')
    if os.path.isdir(lib):
        for n in os.listdir(lib):
            shutil.copytree(os.path.join(lib, n), os.path.join(t, n))
    for p in props:
        shutil.copytree(prop_dir(p), os.path.join(t, p.lower()))
    lines = ['module github.com/icon-project/goloop', '', 'go 1.21', '', 'require (',
             '\tpgregory.net/rapid v1.3.0']
    lines += ['\t%s %s' % (m, v) for m, v, _ in modules()] + [')', '']
    lines += ['replace %s => %s' % (m, d) for m, _, d in modules()]
    with open(os.path.join(tree, 'go.mod'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return tree


def go_env(scratch):
    env = dict(os.environ)
    env.setdefault('HOME', '/root')
    env['PATH'] = env.get('PATH', '/usr/bin:/bin') + ':/usr/local/go/bin:/usr/local/bin'
    env['GOFLAGS'] = '-mod=mod'
    env['GOPROXY'] = 'off'
    env['GOSUMDB'] = 'off'
    env['GOTOOLCHAIN'] = 'local'
    env['GOWORK'] = 'off'
    env['CGO_ENABLED'] = '0'
    env.setdefault('GOCACHE', os.path.join(env['HOME'], '.cache', 'go-build'))
    try:
        os.makedirs(env['GOCACHE'], exist_ok=True)
        probe = os.path.join(env['GOCACHE'], 'pbt-probe-%d' % os.getpid())
        open(probe, 'w').close()
        os.unlink(probe)
    except OSError:
        env['GOCACHE'] = os.path.join(scratch, 'gocache')
    env['TMPDIR'] = os.path.join(scratch, 'tmp')
    os.makedirs(env['TMPDIR'], exist_ok=True)
    return env


def build(scratch, prop):
    tree = make_tree(scratch, [prop])
    out = os.path.join(scratch, 'pbt.test')
    p = subprocess.run(['go', 'test', '-c', '-vet=off', '-o', out, './zzpbt/' + prop.lower()], cwd=tree,
                       env=go_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0 or not os.path.exists(out):
        return None, p.stdout.decode('utf-8', 'replace')
    shutil.rmtree(tree)
    return out, None


class Task:
    def __init__(self, binary, scratch, facet, worker, workers, seed, args, seconds, extra=None):
        self.facet, self.worker, self.seed = facet, worker, seed
        self.dir = os.path.join(scratch, 'run', '%s-%d-%d' % (facet, worker, Task.n))
        Task.n += 1
        os.makedirs(os.path.join(self.dir, 'tmp'))
        self.out = os.path.join(self.dir, 'out.json')
        env = dict(os.environ)
        env.update(PBT_OUT=self.out, PBT_WORKER=str(worker), PBT_WORKERS=str(workers), PBT_TIER=args.tier,
                   PBT_SECONDS=str(int(seconds)), TMPDIR=os.path.join(self.dir, 'tmp'), GOMAXPROCS='2',
                   GOMEMLIMIT='2500MiB', GOTRACEBACK='all')
        env.pop('PBT_COUNT', None)
        if args.count:
            env['PBT_COUNT'] = str(args.count)
        env.update(extra or {})
        cmd = [binary, '-test.run', '^Test%s$' % facet, '-test.timeout', '0', '-rapid.seed', str(seed),
               '-rapid.shrinktime', '25s']
        if extra and extra.get('PBT_REPLAY'):
            cmd += ['-rapid.failfile', extra['PBT_REPLAY']]
        self.log = open(os.path.join(self.dir, 'log'), 'wb+')
        self.p = subprocess.Popen(cmd, cwd=self.dir, env=env, stdout=self.log, stderr=self.log)
        self.hard = time.monotonic() + seconds + 150

    n = 0

    def poll(self):
        return self.p.poll()

    def kill(self):
        self.p.kill()
        self.p.wait()

    def text(self):
        self.log.seek(0)
        return self.log.read().decode('utf-8', 'replace')

    def stats(self):
        if os.path.exists(self.out):
            with open(self.out) as f:
                return json.load(f)
        return None

    def failure(self):
        """(kind, message, trace, fail file text, number of the case) or None"""
        rc = self.p.returncode
        if rc == 0:
            return None
        text = self.text()
        d = {'message': 'ended with %s' % rc, 'trace': [], 'case': 0}
        if os.path.exists(self.out + '.fail'):
            with open(self.out + '.fail') as f:
                d = json.load(f)
        ff = None
        for r, _, files in os.walk(os.path.join(self.dir, 'testdata')):
            for n in files:
                if n.endswith('.fail'):
                    with open(os.path.join(r, n)) as f:
                        ff = f.read()
        if rc == 4 or 'PBT-BROKEN' in text:
            return {'kind': 'broken', 'message': text[-2000:]}
        if ff is not None:
            return {'kind': 'case', 'message': d['message'], 'trace': d['trace'], 'file': ff,
                    'sure': bool(d.get('sure'))}
        if 'PBT-HANG' in text or 'fatal error: ' in text or 'panic: ' in text or 'FAIL' in text:
            m = re.search(r'(fatal error: .*|panic: .*)', text)
            if not d.get('trace') and m and 'PBT-HANG' not in text:
                d['message'] = m.group(1) + '\n' + text[m.start():m.start() + 1500]
            return {'kind': 'crash', 'message': d['message'], 'trace': d.get('trace') or [], 'case': d.get('case', 0),
                    'sure': bool(d.get('sure'))}
        return {'kind': 'broken', 'message': 'ended with %s: %s' % (rc, text[-1500:])}


def run_replay(binary, scratch, d, tier):
    class A:
        pass
    a = A()
    a.tier, a.count = tier, d.get('count')
    extra = {}
    if d['kind'] == 'case':
        path = os.path.join(scratch, 'replay-%d.fail' % Task.n)
        with open(path, 'w') as f:
            f.write(d['file'])
        extra['PBT_REPLAY'] = path
    t = Task(binary, scratch, d['facet'], d['worker'], d['workers'], d['seed'], a, 0, extra)
    t.hard = time.monotonic() + 400
    while t.poll() is None:
        if time.monotonic() > t.hard:
            t.kill()
            return {'kind': 'crash', 'message': 'did not end'}
        time.sleep(0.05)
    return t.failure()


def replay(path, scratch):
    with open(path) as f:
        d = json.load(f)
    binary, err = build(scratch, d['property'])
    if binary is None:
        print('ERROR: the harness does not build: %s' % err[-3000:], file=sys.stderr)
        return 2
    for _ in range(5):
        r = run_replay(binary, scratch, d, d.get('tier', 'quick'))
        if r and r['kind'] in ('case', 'crash'):
            print('VIOLATION property=%s replay=%s' % (d['property'], path))
            print('  ' + r['message'].replace('\n', '\n  ')[:3000])
            for x in r.get('trace') or []:
                print('    ' + x)
            return 1
        if r:
            print('ERROR: ' + r['message'], file=sys.stderr)
            return 2
    print('replay of %s: property %s holds' % (path, d['property']))
    return 0


def orchestrate(args, scratch, known):
    t0 = time.time()
    m0 = time.monotonic()
    prop = args.property
    binary, err = build(scratch, prop)
    if binary is None:
        print('ERROR: the harness does not build: %s' % err[-3000:], file=sys.stderr)
        return 2
    built = time.time() - t0
    p = subprocess.run([binary, '-test.list', '^Test'], stdout=subprocess.PIPE, cwd=scratch, check=True)
    facets = [x[4:] for x in p.stdout.decode().split() if x.startswith('Test')]
    if args.facet:
        facets = [f for f in facets if f == args.facet]
    todo = []
    for w in range(args.workers):
        for f in facets:
            seed = int.from_bytes(hashlib.sha256(('%d:%s:%s:%d' % (args.seed, prop, f, w)).encode()).digest()[:7],
                                  'big') | 1
            todo.append((f, w, seed))
    deadline = m0 + args.budget
    running, done = [], []
    fails, errors = [], []
    stop_at = None
    while todo or running:
        while todo and len(running) < PROCS and stop_at is None:
            f, w, seed = todo.pop(0)
            left = max(deadline - time.monotonic(), 5)
            share = min(left, max(left * PROCS / (len(todo) + len(running) + 1), 5))
            running.append(Task(binary, scratch, f, w, args.workers, seed, args, share))
        for t in list(running):
            if t.poll() is None:
                if time.monotonic() > t.hard:
                    t.kill()
                    errors.append('facet %s, worker %d did not end' % (t.facet, t.worker))
                    running.remove(t)
                continue
            running.remove(t)
            done.append(t)
            r = t.failure()
            if r is None:
                continue
            if r['kind'] == 'broken':
                errors.append('facet %s: %s' % (t.facet, r['message']))
            else:
                r.update(facet=t.facet, worker=t.worker, workers=args.workers, seed=t.seed, property=prop,
                         tier=args.tier, count=args.count)
                fails.append(r)
            if stop_at is None:
                stop_at = time.monotonic() + 3
        if stop_at is not None and time.monotonic() > stop_at:
            for t in running:
                t.kill()
            running, todo = [], []
        time.sleep(0.02)
    cov, samples = {}, []
    evaluations, distinct = 0, 0
    known_hit = {}
    for f in facets:
        rs = [s for s in (t.stats() for t in done if t.facet == f) if s]
        keys, labels = set(), {}
        for s in rs:
            keys.update(s['keys'] or [])
            for a, b in s['labels'].items():
                labels[a] = labels.get(a, 0) + b
        n = sum(s['evaluations'] for s in rs)
        cov[f] = {'evaluations': n, 'distinct_nontrivial': len(keys), 'rule': rs[0]['rule'] if rs else '',
                  'classes': dict(sorted(labels.items())), 'worker_wall_s': round(sum(s['wall'] for s in rs), 1)}
        if any(s['timed_out'] for s in rs):
            cov[f]['cut_short'] = True
        for a, b in labels.items():
            if a.startswith('known:'):
                known_hit[a[6:]] = known_hit.get(a[6:], 0) + b
        evaluations += n
        distinct += len(keys)
        got = sorted((x for s in rs for x in s['samples'] or []), key=len)
        if got:
            samples.append({'facet': f, 'case': got[len(got) // 2]})
            samples.append({'facet': f, 'case': got[-1]})
    ass = os.path.join(prop_dir(prop), 'assumptions.txt')
    evidence = {
        'property': prop, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration',
        'coverage': {'evaluations': evaluations, 'distinct_nontrivial': distinct,
                     'rule': '; '.join('%s: %s' % (f, cov[f]['rule']) for f in facets),
                     'samples': samples, 'facets': cov, 'build_s': round(built, 1)},
        'assumptions': open(ass).read().strip().split('\n') if os.path.exists(ass) else [],
        'wall_s': round(time.time() - t0, 2), 'violations': len(fails)}
    if known_hit:
        evidence['coverage']['known_findings_hit'] = known_hit
    if not args.no_evidence and not args.facet:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=True)
    if args.labels:
        print(json.dumps(cov, indent=1))
    fails.sort(key=lambda x: (x['kind'] != 'case', len(x.get('trace') or []), len(x.get('file', ''))))
    for d in fails[:3]:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        text = json.dumps(d, indent=1)
        path = os.path.join(HERE, 'replays', '%s-%s-%s.json' % (
            prop, d['facet'], hashlib.sha256((d.get('file') or str(d['seed'])).encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(text + '\n')
        for _ in range(5):
            r = run_replay(binary, scratch, d, args.tier)
            if r and r['kind'] in ('case', 'crash'):
                print('VIOLATION property=%s replay=%s' % (prop, path))
                print('  facet %s: %s' % (d['facet'], r['message'][:3000]))
                for x in (r.get('trace') or [])[:80]:
                    print('    ' + x[:600])
                return 1
        if d.get('sure'):
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  facet %s (depends on the scheduling, seen once): %s' % (d['facet'], d['message'][:3000]))
            for x in (d.get('trace') or [])[:80]:
                print('    ' + x[:600])
            return 1
        errors.append('failure does not reproduce: %s: %s' % (path, d['message'][:1500]))
    if errors:
        for e in errors[:3]:
            print('ERROR: %s' % e, file=sys.stderr)
        return 2
    for kf in known:
        if kf['property'] == prop and kf.get('status') == 'known':
            print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    print('property %s: %d cases (%d distinct non-trivial) in %.1f s, no violation' % (
        prop, evaluations, distinct, time.time() - t0))
    return 0
