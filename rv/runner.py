"""Runs the monitor of one property in several worker processes and reaches the verdict.

exit 0: held on everything observed; exit 1: VIOLATION line; exit 2: inconclusive or
harness error (monitor never reached, needed situations never occurred, worker died).
"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PYPY = '/opt/venv/bin/python'


def interpreters(kind):
    """command per worker; eight workers"""
    cpython = None
    for c in ('/usr/bin/python3', shutil.which('python3') or ''):
        if c and os.path.exists(c):
            cpython = c
            break
    main = PYPY if os.path.exists(PYPY) else (cpython or sys.executable)
    if kind == 'both' and cpython:
        return [('pypy', [main])] * 5 + [('pypy-O', [main, '-O']), ('cpython', [cpython, '-W', 'ignore']),
                                         ('cpython-O', [cpython, '-O', '-W', 'ignore'])]
    return [('pypy', [main])] * 7 + [('pypy-O', [main, '-O'])]


def known_findings():
    """[(property, mechanism text)] of recorded, unrepaired defects"""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                body = line[len('finding:'):].strip()
                prop, _, rest = body.partition(' ')
                out.append((prop.replace('property=', ''), rest))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only', type=int, help='run this worker only')
    args = ap.parse_args()
    prop = args.prop
    started = time.time()
    module = importlib.import_module('rv.checks.' + prop.lower())
    scratch = tempfile.mkdtemp(prefix='rv-%s-' % prop)
    try:
        code = check(args, prop, module, scratch, started)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def hash_seed(seed, worker):
    # string hashing differs between workers, so that set order does too
    return (seed * 8 + worker) % 4294967295


def environment(scratch):
    env = dict(os.environ)
    env.update({'PYTHONHASHSEED': '0', 'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1',
                'PYTHONPYCACHEPREFIX': os.path.join(scratch, 'pycache'),
                'RV_SCRATCH': scratch, 'TMPDIR': scratch})
    env.pop('PYTHONPATH', None)
    return env


def check(args, prop, module, scratch, started):
    env = environment(scratch)
    kinds = interpreters(getattr(module, 'INTERPRETERS', 'both'))
    if args.replay:
        return replay(args, prop, kinds, scratch, env)
    budget = getattr(module, 'BUDGET', {'quick': 200, 'thorough': 780})[args.tier]
    procs = []
    for w, (name, cmd) in enumerate(kinds):
        if args.only is not None and w != args.only:
            continue
        out = os.path.join(scratch, 'w%d.json' % w)
        full = cmd + ['-m', 'rv.worker', prop, '--worker', str(w), '--workers', str(len(kinds)),
                      '--tier', args.tier, '--seed', str(args.seed), '--interp', name,
                      '--out', out, '--budget', str(budget)]
        log = open(os.path.join(scratch, 'w%d.log' % w), 'wb')
        e = dict(env)
        e['RV_SCRATCH'] = os.path.join(scratch, 'w%d' % w)
        os.mkdir(e['RV_SCRATCH'])
        e['TMPDIR'] = e['RV_SCRATCH']
        e['PYTHONHASHSEED'] = str(hash_seed(args.seed, w))
        procs.append((w, name, full, out, subprocess.Popen(full, cwd=HERE, env=e, stdout=log, stderr=log)))
    limit = started + budget + 90
    results, errors, violations = [], [], []
    for w, name, full, out, proc in procs:
        try:
            proc.wait(timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.wait()
            errors.append('worker %d (%s) did not finish in time' % (w, name))
            continue
        try:
            with open(out) as f:
                r = json.load(f)
        except Exception:
            tail = open(os.path.join(scratch, 'w%d.log' % w), 'rb').read()[-2000:].decode('utf-8', 'replace')
            errors.append('worker %d (%s) died with %s: %s' % (w, name, proc.returncode, tail))
            continue
        r['worker'], r['interp'] = w, name
        results.append(r)
        if r['status'] != 'done':
            errors.append('worker %d (%s): %s\n%s' % (w, name, r.get('error'), r.get('traceback')))
        for v in r['violations']:
            v['worker'], v['interp'] = w, name
            violations.append(v)
    # ---- evidence
    events, features, sigs, samples, extra = {}, {}, set(), [], {}
    evaluations = 0
    per_interp = {}
    truncated = 0
    for r in results:
        if r['status'] != 'done':
            continue
        evaluations += r['evaluations']
        per_interp[r['interp']] = per_interp.get(r['interp'], 0) + r['evaluations']
        truncated += bool(r.get('truncated'))
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['features'].items():
            features[k] = features.get(k, 0) + v
        sigs.update(r['sigs'])
        samples.extend(r['samples'][:2])
        for k, v in r['extra'].items():
            if isinstance(v, (int, float)):
                extra[k] = extra.get(k, 0) + v
            elif isinstance(v, list):
                extra.setdefault(k, set()).update(map(str, v))
            else:
                extra[k] = v
    extra = dict((k, len(v) if isinstance(v, set) else v) for k, v in extra.items())
    missing = [f for f in getattr(module, 'REQUIRED', []) if not features.get(f)]
    if getattr(module, 'SHARING', False) and not features.get('shared_objects'):
        missing.append('shared_objects')
    if hasattr(module, 'required'):
        missing += [f for f in module.required(args.tier) if not features.get(f)]
    level = getattr(module, 'LEVEL', 'exploration')
    coverage = {'evaluations': evaluations, 'distinct_nontrivial': len(sigs),
                'rule': module.RULE, 'samples': samples[:6],
                'events_observed': events, 'situations_observed': features,
                'cases_per_interpreter': per_interp, 'workers_stopped_by_time': truncated}
    coverage.update(extra)
    evidence = {'property': prop, 'tier': args.tier, 'seed': args.seed, 'level': level,
                'coverage': coverage,
                'assumptions': getattr(module, 'ASSUMPTIONS', []),
                'wall_s': round(time.time() - started, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
    os.replace(path + '.tmp', path)
    # ---- verdict
    known = [t for p, t in known_findings() if p == prop]
    for t in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    if violations:
        violations.sort(key=lambda v: (len(json.dumps(v['case'], default=str)), v['worker']))
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        seen = set()
        for v in violations:
            head = v['message'].split(':')[0][:60]
            if head in seen or len(seen) >= 3:
                continue
            seen.add(head)
            v.update({'property': prop, 'tier': args.tier, 'seed': args.seed,
                      'workers': len(kinds)})
            text = json.dumps(v, indent=1, default=str)
            name = '%s-%s.json' % (prop, hashlib.md5(text.encode()).hexdigest()[:10])
            rp = os.path.join(HERE, 'replays', name)
            with open(rp, 'w') as f:
                f.write(text)
            print('%s' % v['message'][:1500])
            for k, d in sorted(v['details'].items()):
                if k != 'traceback':
                    print('  %s: %s' % (k, d[:1000]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if errors:
        print('INCONCLUSIVE property=%s: %d problems, first: %s' % (prop, len(errors), errors[0]))
        return 2
    if args.only is None:
        if not evaluations or not sigs:
            print('INCONCLUSIVE property=%s: nothing was observed' % prop)
            return 2
        if missing:
            print('INCONCLUSIVE property=%s: situations that never occurred: %s' % (prop, missing))
            return 2
    print('held property=%s cases=%d distinct_nontrivial=%d calls=%d wall=%.1fs' % (
        prop, evaluations, len(sigs), sum(events.values()), time.time() - started))
    return 0


def replay(args, prop, kinds, scratch, env):
    with open(args.replay) as f:
        v = json.load(f)
    cmds = dict((n, c) for n, c in kinds)
    cmd = cmds.get(v.get('interp'), kinds[0][1])
    for extra in (['--replay', os.path.abspath(args.replay)], ['--upto', str(v.get('index', 0))]):
        out = os.path.join(scratch, 'replay.json')
        full = cmd + ['-m', 'rv.worker', prop, '--worker', str(v.get('worker', 0)), '--workers',
                      str(v.get('workers', 8)), '--tier', v.get('tier', 'quick'), '--seed',
                      str(v.get('seed', 1)), '--interp', str(v.get('interp', 'pypy')), '--out', out] + extra
        e = dict(env)
        e['RV_SCRATCH'] = tempfile.mkdtemp(dir=scratch)
        e['TMPDIR'] = e['RV_SCRATCH']
        e['PYTHONHASHSEED'] = str(hash_seed(v.get('seed', 1), v.get('worker', 0)))
        subprocess.call(full, cwd=HERE, env=e)
        with open(out) as f:
            r = json.load(f)
        if r['violations']:
            w = r['violations'][-1]
            print(w['message'])
            for k, d in sorted(w['details'].items()):
                print('  %s: %s' % (k, d))
            print('VIOLATION property=%s replay=%s' % (prop, args.replay))
            return 1
        if r['status'] != 'done':
            print(r.get('traceback'))
            return 2
    print('not reproduced')
    return 0


if __name__ == '__main__':
    sys.exit(main())
