"""Command line: run one property's check, or replay a case.

  run.py PROPERTY [--tier quick|thorough] [--facet NAME] [--count N]
  run.py --replay FILE
"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_path():
    repo = os.environ.get('PBT_REPO', '/repo')
    for p in (os.path.join(repo, 'pyee'), HERE):
        while p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if SITE not in sys.path:
        sys.path.append(SITE)


def load(prop):
    return importlib.import_module('pbt.props.' + prop.lower())


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def worker(args):
    setup_path()
    import hypothesis.configuration
    hypothesis.configuration.set_hypothesis_home_dir(tempfile.mkdtemp(prefix='hyp-', dir=args.scratch))
    from pbt import core, scores
    from pbt.node import HarnessError
    scores.parent = args.scratch
    mod = load(args.property)
    out = {'facets': {}, 'fail': None, 'error': None}
    deadline = time.monotonic() + args.budget
    try:
        for i, facet in enumerate(mod.FACETS):
            if args.facet and facet.name != args.facet:
                continue
            total = args.count or getattr(facet, args.tier)
            n = total // args.workers + (1 if args.worker < total % args.workers else 0)
            if n == 0:
                continue
            stats = core.Stats()
            t = time.monotonic()
            # every facet gets at least a fair share of what is left
            left = len(mod.FACETS) - i
            share = t + (deadline - t) / left if not args.facet else deadline
            seed = int.from_bytes(hashlib.sha256(('%d:%s:%s:%d' % (
                args.seed, args.property, facet.name, args.worker)).encode()).digest()[:8], 'big')
            r = core.search(facet, n, seed, share, stats, args.worker % 3 == 0)
            d = stats.dump()
            d['wall'] = time.monotonic() - t
            d['asked'] = n
            out['facets'][facet.name] = d
            if r is not None:
                out['fail'] = {'facet': facet.name, 'case': core.literal(r[0]), 'message': r[1], 'paths': r[2]}
                break
    except HarnessError as e:
        out['error'] = str(e)
    except MemoryError:
        out['error'] = 'out of memory'
    tmp = args.out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(out, f)
    os.rename(tmp, args.out)


def replay(path):
    setup_path()
    from pbt import core, scores
    from pbt.node import Violation
    with open(path, encoding='utf-8') as f:
        d = json.load(f)
    mod = load(d['property'])
    facet = [x for x in mod.FACETS if x.name == d['facet']][0]
    rec = core.Rec()
    if d.get('paths'):
        scores.adopt(d['paths'])
    try:
        facet.check(core.from_literal(d['case']), rec)
    except Violation as e:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        print('  ' + str(e).replace('\n', '\n  '))
        return 1
    print('replay of %s: property %s holds' % (path, d['property']))
    return 0


def child_env(scratch):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')
    env['PYTHONPATH'] = HERE
    env['PYTHONIOENCODING'] = 'utf-8'
    env.pop('PYTHONDONTWRITEBYTECODE', None)
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--facet')
    ap.add_argument('--count', type=int)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('PBT_WORKERS') or 7))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--worker', type=int)
    ap.add_argument('--out')
    ap.add_argument('--scratch')
    ap.add_argument('--labels', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    if args.budget is None:
        args.budget = 300 if args.tier == 'quick' else 780
    if args.replay and args.scratch:
        return replay(args.replay)
    if args.worker is not None:
        return worker(args)
    scratch = tempfile.mkdtemp(prefix='pbt-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    os.chmod(scratch, 0o711)
    try:
        sys.path.insert(0, HERE)
        from pbt import gorun
        if args.replay:
            with open(args.replay, encoding='utf-8') as f:
                if gorun.is_go(json.load(f)['property']):
                    return gorun.replay(args.replay, scratch)
            return subprocess.call([sys.executable, os.path.abspath(__file__), '--replay', args.replay, '--scratch',
                                    scratch], env=child_env(scratch))
        if gorun.is_go(args.property):
            return gorun.orchestrate(args, scratch, known_findings())
        return orchestrate(args, scratch)
    finally:
        shutil.rmtree(scratch, True)


def orchestrate(args, scratch):
    t0 = time.time()
    prop = args.property
    procs = []
    for i in range(args.workers):
        out = os.path.join(scratch, 'w%d.json' % i)
        cmd = [sys.executable, os.path.abspath(__file__), prop, '--tier', args.tier, '--seed', str(args.seed),
               '--workers', str(args.workers), '--worker', str(i), '--out', out, '--scratch', scratch,
               '--budget', str(args.budget)]
        if args.facet:
            cmd += ['--facet', args.facet]
        if args.count:
            cmd += ['--count', str(args.count)]
        err = open(os.path.join(scratch, 'w%d.err' % i), 'w+')
        # contracts' __del__ noise and the like must not reach our stdout
        procs.append((subprocess.Popen(cmd, env=child_env(scratch), stdout=err, stderr=err), out, err))
    results = [None] * len(procs)
    grace = None
    hard = time.monotonic() + args.budget + 90
    while any(r is None for r in results):
        for i, (p, out, err) in enumerate(procs):
            if results[i] is None and p.poll() is not None:
                if os.path.exists(out):
                    with open(out) as f:
                        results[i] = json.load(f)
                else:
                    err.seek(0)
                    results[i] = {'facets': {}, 'fail': None,
                                  'error': 'worker %d ended with %s: %s' % (i, p.returncode, err.read()[-2000:])}
                if results[i]['fail'] and grace is None:
                    # others may be shrinking the same failure: not needed
                    grace = time.monotonic() + 1
        now = time.monotonic()
        if (grace and now > grace) or now > hard:
            for i, (p, out, err) in enumerate(procs):
                if results[i] is None:
                    p.kill()
                    p.wait()
                    results[i] = {'facets': {}, 'fail': None, 'error': None if grace else 'worker %d timed out' % i}
        time.sleep(0.05)

    setup_path()
    mod = load(prop)
    fails = [r['fail'] for r in results if r['fail']]
    errors = [r['error'] for r in results if r['error']]
    cov = {}
    evaluations = 0
    keys = set()
    samples = []
    known = {}
    for f in mod.FACETS:
        rs = [r['facets'][f.name] for r in results if f.name in r['facets']]
        k = set()
        labels = {}
        for r in rs:
            k.update(r['keys'])
            for a, b in r['labels'].items():
                labels[a] = labels.get(a, 0) + b
            for a, b in r['known'].items():
                known[a] = known.get(a, 0) + b
        n = sum(r['evaluations'] for r in rs)
        cov[f.name] = {'evaluations': n, 'distinct_nontrivial': len(k), 'rule': f.rule,
                       'classes': dict(sorted(labels.items())),
                       'worker_wall_s': round(sum(r['wall'] for r in rs), 1)}
        evaluations += n
        keys.update(f.name + x for x in k)
        got = [s for r in rs for s in r['samples']]
        got.sort(key=len)
        if got:
            samples.append({'facet': f.name, 'case': got[len(got) // 2]})
            samples.append({'facet': f.name, 'case': got[-1]})
    evidence = {
        'property': prop, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration',
        'coverage': {'evaluations': evaluations, 'distinct_nontrivial': len(keys),
                     'rule': '; '.join('%s: %s' % (f.name, f.rule) for f in mod.FACETS),
                     'samples': samples, 'facets': cov},
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(fails)}
    if known:
        evidence['coverage']['known_findings_hit'] = known
    if not args.no_evidence and not args.facet:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=True)
    if args.labels:
        print(json.dumps(cov, indent=1))
    if fails:
        fails.sort(key=lambda x: len(x['case']))
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for f in fails:
            f['property'] = prop
            path = os.path.join(HERE, 'replays', '%s-%s-%s.json' % (
                prop, f['facet'], hashlib.sha256(f['case'].encode()).hexdigest()[:10]))
            with open(path, 'w') as o:
                json.dump(f, o, indent=1)
            for _ in range(2):
                p = subprocess.run([sys.executable, os.path.abspath(__file__), '--replay', path, '--scratch', scratch],
                                   env=child_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode == 1:
                    print('VIOLATION property=%s replay=%s' % (prop, path))
                    print('  facet %s: %s' % (f['facet'], f['message']))
                    print('  case: %s' % f['case'][:3000])
                    return 1
            errors.append('failure does not reproduce: %s\n%s' % (path, p.stdout.decode('utf-8', 'replace')[-1500:]))
    if errors:
        for e in errors[:3]:
            print('ERROR: %s' % e, file=sys.stderr)
        return 2
    for kf in known_findings():
        if kf['property'] == prop and kf.get('status') == 'known':
            print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    print('property %s: %d cases (%d distinct non-trivial) in %.1f s, no violation' % (
        prop, evaluations, len(keys), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
