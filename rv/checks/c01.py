"""C01: public names resolve in any order of first use (fresh processes)."""
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import threading
import time
from rv import core
from rv.core import Violation, short

INTERPRETERS = 'both'
QUICK_FACTOR = 1
REQUIRED = ['fresh_interpreter', 'forked', 'attr_first', 'from_first', 'home_first', 'import_first', 'star_first', 'use_first',
            'star_import', 'missing_name', 'dir', 'use', 'all_names_checked', 'submodule_then_name', 'whole_permutation', 'threads', 'threads_first_import', 'threads_same_name', 'threads_delayed']
RULE = ('fresh processes (new interpreters, or forks of one that never imported the package) first use advertised names and '
        'import submodules in an enumerated (every first use; thorough: every ordered pair) or random order, in part in several threads at once with delays injected into the imports; every name is '
        'then compared by identity with its home module; non-trivial: at least two steps')
ASSUMPTIONS = ['threads import nothing but the package itself (two threads importing a package and one of its submodules directly can '
               'deadlock in the interpreter, whatever the package does)',
               'a process forked before the package was ever imported is a fresh process as far as the package is concerned']

HOMES = dict((n, m) for m, ns in core.API_MODULES.items() for n in ns)
HOMES['Field'] = 'segeval.data.jsonutils'
# advertised from the package itself, by the documentation and the package's own list
NAMES = sorted(n for n in HOMES if n not in ('DataIOError', 'input_linear_positions_tsv', 'SegmentationMetricError'))
INNER = ['DataIOError', 'input_linear_positions_tsv', 'SegmentationMetricError']

USES = {
    'pk': '{0}([2,3,6],[2,2,7])', 'window_diff': '{0}([2,3,6],[2,2,7])', 'boundary_similarity': '{0}([2,3,6],[2,2,7])',
    'segmentation_similarity': '{0}([2,3,6],[2,2,7])', 'boundary_statistics': '{0}([2,3,6],[2,2,7])',
    'boundary_confusion_matrix': '{0}([2,3,6],[2,2,7])', 'compute_window_size': '{0}([2,2,7])',
    'summarize': '{0}({{"a": 1, "b": 2}})', 'Dataset': '{0}({{"i": {{"a": [2, 3], "b": [5]}}}})',
    'ConfusionMatrix': '{0}()', 'boundary_string_from_masses': '{0}([2,3])', 'convert_masses_to_positions': '{0}([2,3])',
    'convert_positions_to_masses': '{0}([1,1,2])', 'convert_nltk_to_masses': '{0}("0100")',
    'boundary_edit_distance': '{0}([{{1}},set()],[set(),{{1}}])', 'weight_a': '{0}([])', 'weight_t': '{0}([], 2)',
    'weight_s': '{0}([], 1, 1)', 'weight_s_scale': '{0}([], 1, 1)', 'weight_t_scale': '{0}([], 2)',
    'actual_agreement_linear': '{0}({{"i": {{"a": [2, 3], "b": [1, 4]}}}})',
    'fleiss_pi_linear': '{0}({{"i": {{"a": [2, 3], "b": [1, 4]}}}})',
    'fleiss_kappa_linear': '{0}({{"i": {{"a": [2, 3], "b": [1, 4]}}}})',
    'artstein_poesio_bias_linear': '{0}({{"i": {{"a": [2, 3], "b": [1, 4]}}}})',
    'KAZANTSEVA2012_G5': 'len({0})', 'HEARST_1997_STARGAZER': '{0}.copy()', 'BoundaryFormat': '{0}.mass, {0}.nltk',
    'Average': '{0}.micro, {0}.macro', 'Field': '{0}.items',
    'precision': '{0}(__import__("segeval").ConfusionMatrix())', 'fmeasure': '{0}(__import__("segeval").ConfusionMatrix())',
}


def submodules():
    out = []
    top = os.path.join(core.REPO, 'segeval')
    for folder, dirs, files in os.walk(top):
        dirs[:] = sorted(d for d in dirs if d not in ('tests', 'test', '__pycache__'))
        for f in sorted(files):
            if f.endswith('.py') and 'test' not in f:
                rel = os.path.relpath(os.path.join(folder, f), core.REPO)[:-3].replace(os.sep, '.')
                out.append(rel[:-len('.__init__')] if rel.endswith('.__init__') else rel)
    return [m for m in out if m not in ('segeval',) and '__main__' not in m]


def first_steps():
    out = [['attr', n] for n in NAMES] + [['from', n] for n in NAMES] + [['home', n] for n in NAMES + INNER]
    out += [['use', n] for n in sorted(USES)] + [['import', m] for m in submodules()]
    out += [['star', ''], ['dir', ''], ['missing', 'no_such_name'], ['all', '']]
    return out


def cases(ctx):
    rng = ctx.rng
    firsts = first_steps()
    for k, s in enumerate(firsts):
        if k % ctx.workers == ctx.worker:
            yield {'steps': [s], 'fresh': True}
    # with the other interpreter too (a different worker, hence often a different interpreter)
    for k, s in enumerate(firsts):
        if (k * 5 + 3) % ctx.workers == ctx.worker:
            yield {'steps': [s], 'fresh': False}
    if not ctx.quick():
        k = 0
        for s in firsts:
            for t in firsts:
                k += 1
                if k % ctx.workers == ctx.worker:
                    yield {'steps': [s, t], 'fresh': False}
    for i in range(ctx.scale(60, 1800)):
        # several threads use names for the first time at once
        kinds = [s for s in firsts if s[0] in ('attr', 'from', 'use', 'star', 'dir', 'missing', 'all')]
        n = rng.choice([2, 2, 2, 3, 4])
        threads = [[list(rng.choice(kinds)) for _ in range(rng.choice([1, 1, 2, 4]))] for _ in range(n)]
        if rng.random() < 0.2:
            threads = [list(threads[0]) for _ in range(n)]
        yield {'steps': [['all', '']] if rng.random() < 0.5 else [], 'threads': threads, 'seed': rng.randrange(10 ** 6),
               'delayed': rng.random() < 0.8, 'fresh': rng.random() < 0.15}
    for i in range(ctx.scale(70, 2200)):
        r = rng.random()
        if r < 0.25:
            steps = [['attr', n] for n in NAMES]
            rng.shuffle(steps)
        else:
            steps = [list(rng.choice(firsts)) for _ in range(rng.choice([2, 2, 3, 3, 4, 6, 10, 25]))]
        yield {'steps': steps, 'fresh': rng.random() < 0.05}


# -------------------------------------------------------------- in the fresh process
def together(threads, step, bad, seed, delayed):
    """every thread takes its steps, all at once; now and then a module of the package is found late"""
    rng = random.Random(seed)
    count = [0]

    class Slow(object):
        find_module = None

        @staticmethod
        def find_spec(name, path=None, target=None):
            if name.split('.')[0] == 'segeval':
                count[0] += 1
                time.sleep(rng.choice([0, 0, 0.0005, 0.002, 0.006]))
            return None
    gate = threading.Barrier(len(threads))

    def go(steps):
        gate.wait()
        for kind, name in steps:
            if not step(kind, name):
                return
    sys.setswitchinterval(1e-5)
    if delayed:
        sys.meta_path.insert(0, Slow)
    pool = [threading.Thread(target=go, args=(steps,), daemon=True) for steps in threads]
    for t in pool:
        t.start()
    limit = time.time() + 90
    for t in pool:
        t.join(max(0.1, limit - time.time()))
        if t.is_alive():
            bad('threads wait for each other forever')
            break
    if delayed:
        sys.meta_path.remove(Slow)
    return count[0]


def execute(steps, threads=(), seed=0, delayed=False, **_):
    """runs in the fresh process; returns a report"""
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    for m in list(sys.modules):
        if m == 'segeval' or m.startswith('segeval.'):
            return {'harness': 'segeval was already imported'}
    report = {'problems': []}
    bad = report['problems'].append
    seen = {}

    def saw(name, obj, how):
        if name in seen and seen[name] is not obj:
            bad('%s denotes another object (%s) than before' % (name, how))
        seen.setdefault(name, obj)
    state = {}

    def take(kind, name):
        if kind == 'home':
            saw(name, getattr(importlib.import_module(HOMES[name]), name), 'home module')
        elif kind == 'import':
            if importlib.import_module(name) is not sys.modules[name]:
                bad('importing %s gave another module' % name)
        elif kind == 'from':
            space = {}
            exec('from segeval import ' + name, space)
            saw(name, space[name], 'from import')
        elif kind == 'star':
            space = {}
            exec('from segeval import *', space)
            import segeval
            for n in segeval.__all__:
                if n not in space:
                    bad('star import does not provide %s' % n)
                else:
                    saw(n, space[n], 'star import')
        else:
            import segeval
            if kind == 'attr':
                saw(name, getattr(segeval, name), 'attribute')
            elif kind == 'use':
                eval(USES[name].format('segeval.' + name), {'segeval': segeval, 'set': set})
            elif kind == 'dir':
                d = dir(segeval)
                for n in segeval.__all__:
                    if n not in d:
                        bad('dir() does not list %s' % n)
            elif kind == 'missing':
                if hasattr(segeval, name) or getattr(segeval, name, None) is not None:
                    bad('the unknown name %s resolves' % name)
            elif kind == 'all':
                list(segeval.__all__)

    def step(kind, name):
        try:
            take(kind, name)
        except Exception as exc:
            bad('step %s %s raised %s: %s' % (kind, name, type(exc).__name__, exc))
            return False
        p = sys.modules.get('segeval')
        if state.setdefault('package', p) is not p:
            bad('the package object was replaced after %s %s' % (kind, name))
        now = sorted(p.__all__)
        if state.setdefault('advertised', now) != now:
            bad('the advertised list changed after %s %s' % (kind, name))
        return True
    for kind, name in steps:
        if not step(kind, name):
            return report
    if threads:
        report['delays'] = together(threads, step, bad, seed, delayed)
        if report['problems']:
            return report
    advertised = state['advertised']
    try:
        import segeval
        for n in sorted(set(NAMES) | set(advertised)):
            saw(n, getattr(segeval, n), 'attribute at the end')
            if n in HOMES and getattr(segeval, n) is not getattr(importlib.import_module(HOMES[n]), n):
                bad('%s is not the object of %s' % (n, HOMES[n]))
        for n in INNER:
            if n in seen and seen[n] is not getattr(importlib.import_module(HOMES[n]), n):
                bad('%s is not the object of %s' % (n, HOMES[n]))
        if sorted(segeval.__all__) != advertised or len(set(segeval.__all__)) != len(segeval.__all__):
            bad('the advertised list changed at the end')
    except Exception as exc:
        bad('resolving the remaining names raised %s: %s' % (type(exc).__name__, exc))
    report['advertised'] = advertised
    where = getattr(sys.modules.get('segeval.format'), '__file__', '')
    if not os.path.realpath(where).startswith(os.path.realpath(core.REPO) + os.sep):
        report['harness'] = 'segeval imported from %s' % where
    return report


def fork_report(case):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            data = json.dumps(execute(**case)).encode('utf-8')
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    limit = time.time() + 150
    try:
        while True:
            ready = select.select([r], [], [], max(0.1, limit - time.time()))[0]
            if not ready:
                os.kill(pid, signal.SIGKILL)
                return None
            chunk = os.read(r, 65536)
            if not chunk:
                break
            data += chunk
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    return json.loads(data.decode('utf-8')) if data else {'problems': ['the process died']}


def spawn_report(case):
    flags = (['-W', 'ignore'] if '__pypy__' not in sys.builtin_module_names else []) + ['-O'] * sys.flags.optimize
    proc = subprocess.Popen([sys.executable] + flags + ['-m', 'rv.checks.c01'], cwd=core.HERE, stdin=subprocess.PIPE,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        out, err = proc.communicate(json.dumps(case).encode('utf-8'), timeout=150)
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.communicate()
        return None
    try:
        return json.loads(out.decode('utf-8').strip().splitlines()[-1])
    except Exception:
        return {'problems': ['the process ended with %s: %s' % (proc.returncode, err[-500:].decode('utf-8', 'replace'))]}


def run(case, ctx):
    threads = case.get('threads', [])
    steps = case['steps'] + [s for t in threads for s in t]
    ctx.events['process'] += 1
    ctx.events['first_use_steps'] += len(steps)
    report = spawn_report(case) if case['fresh'] else fork_report(case)
    ctx.feature('fresh_interpreter' if case['fresh'] else 'forked')
    if report is None:
        raise Violation('first use did not finish within 150 s', steps=steps)
    if report.get('harness'):
        raise RuntimeError(report['harness'])
    ctx.expect(not report['problems'], 'first use %s: %s' % (
        'by several threads' if threads else 'in the order given', '; '.join(report['problems'][:4])), steps=case['steps'], threads=threads)
    ctx.events['names_compared'] += len(report['advertised'])
    before = ctx.extra.get('advertised')
    ctx.expect(before in (None, ' '.join(report['advertised'])), 'the advertised list differs between orders of first use',
               steps=steps, before=before, now=report['advertised'])
    ctx.extra['advertised'] = ' '.join(report['advertised'])
    ctx.feature(steps[0][0] + '_first', 'all_names_checked')
    if threads:
        ctx.events['thread'] += len(threads)
        ctx.events['import_delayed'] += report['delays']
        ctx.feature('threads')
        if not case['steps']:
            ctx.feature('threads_first_import')
        if report['delays']:
            ctx.feature('threads_delayed')
        if all(t == threads[0] for t in threads):
            ctx.feature('threads_same_name')
    kinds = [s[0] for s in steps]
    for k, f in (('star', 'star_import'), ('missing', 'missing_name'), ('dir', 'dir'), ('use', 'use')):
        if k in kinds:
            ctx.feature(f)
    if 'import' in kinds[:-1] and kinds[-1] in ('attr', 'from', 'use'):
        ctx.feature('submodule_then_name')
    if len(set(s[1] for s in steps if s[0] == 'attr')) == len(NAMES):
        ctx.feature('whole_permutation')
    if len(steps) > 1:
        ctx.nontrivial()


if __name__ == '__main__':
    print(json.dumps(execute(**json.load(sys.stdin))))
