"""C25: concurrent evaluations do not influence each other (scheduled threads)."""
import hashlib
import traceback
from rv import gen, sched
from rv.core import api, short
from rv.checks import common
from rv.checks.c24 import Args, History, argument, calls_for, function, norm

INTERPRETERS = 'both'
QUICK_FACTOR = 1
REQUIRED = ['two_threads', 'many_threads', 'same_objects', 'same_call', 'different_options', 'policy_random', 'policy_rr',
            'policy_stall', 'policy_pct', 'policy_native', 'switched', 'many_switches', 'arg_pair', 'arg_ds', 'arg_ds2', 'arg_matrix', 'arg_matrices',
            'arg_strings', 'arg_values', 'agreement', 'shared_matrix', 'bytecode_switches', 'several_calls_per_thread', 'sequential_again']
RULE = ('random sets of calls distributed over 2-4 threads (often the same call or the same objects) run under seeded schedulers '
        'that switch threads at statements or bytecodes of the package (random, round robin, one thread stopped at its n-th statement while the '
        'others finish, priority changes) and under free running; results compared with those of the calls made alone; '
        'non-trivial: at least one switch inside the package')
ASSUMPTIONS = ['the package is imported before the threads start', 'the unit of interleaving is the source line, and in some schedules (PyPy) the bytecode',
               'no thread edits an argument while another one uses it']
CASE_CPU_SECONDS = 150


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.scale(42, 1300)):
        args = []
        while not args:
            args = [argument(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.15:
                args.append({'t': 'matrix', 'v': [[[rng.choice('abcd'), rng.choice('abcd'), rng.randint(1, 9)]
                                                    for _ in range(rng.randint(2, 7))]] * 2})
            args = [a for a in args if a['t'] not in ('sample', 'edits')]
        calls = [c for k, s in enumerate(args) for c in calls_for(rng, k, s)]
        n = rng.choice([2, 2, 2, 3, 4])
        r = rng.random()
        if r < 0.3:
            one = rng.randrange(len(calls))
            threads = [[one] * rng.choice([1, 2]) for _ in range(n)]
        elif r < 0.6:
            # the same objects, other calls
            k = rng.choice(calls)['arg']
            mine = [j for j, c in enumerate(calls) if c['arg'] == k]
            threads = [[rng.choice(mine) for _ in range(rng.choice([1, 2]))] for _ in range(n)]
        else:
            threads = [[rng.randrange(len(calls)) for _ in range(rng.choice([1, 2, 3]))] for _ in range(n)]
        plans = [['random', 0.02], ['random', 0.15], ['random', 0.5], ['random', 1.0], ['rr', 1], ['rr', rng.choice([2, 3, 7, 20])],
                 ['pct', 2, 400], ['pct', 5, 1500]]
        rng.shuffle(plans)
        plans = plans[:ctx.scale(4, 7)] + [['stall', rng.randrange(n), -1, rng.random()] for _ in range(ctx.scale(3, 10))] + [['native']]
        # some of them at every bytecode instead of every line
        plans = [p + ['fine'] if p[0] != 'native' and rng.random() < 0.3 else p for p in plans]
        yield {'args': args, 'calls': calls, 'threads': threads, 'plans': plans, 'seed': rng.randrange(10 ** 9)}


def run(case, ctx):
    A = api()
    h = History(case, ctx, A)
    used = sorted(set(k for t in case['threads'] for k in t))
    want = dict((k, h.expected(k)) for k in used)
    kinds = set(h.args[case['calls'][k]['arg']].spec['t'] for k in used)
    ctx.feature(*['arg_' + t for t in kinds])
    fns = [case['calls'][k]['fn'] for k in used]
    if any(f in ('actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear') for f in fns):
        ctx.feature('agreement')
    n = len(case['threads'])
    ctx.feature('two_threads' if n == 2 else 'many_threads')
    flat = [set(t) for t in case['threads']]
    if any(flat[i] & flat[j] for i in range(n) for j in range(i)):
        ctx.feature('same_call')
    owners = [set(case['calls'][k]['arg'] for k in t) for t in case['threads']]
    if any(owners[i] & owners[j] for i in range(n) for j in range(i)):
        ctx.feature('same_objects')
        if kinds & set(['matrix', 'matrices']):
            ctx.feature('shared_matrix')
    if len(used) > 1:
        ctx.feature('different_options')
    if any(len(t) > 1 for t in case['threads']):
        ctx.feature('several_calls_per_thread')
    seen = ctx.extra.setdefault('distinct_interleavings', [])
    places = ctx.extra.setdefault('distinct_switch_places', [])
    lengths = {}
    for number, plan in enumerate(case['plans']):
        # objects no one has used yet, shared by all threads
        objects = [Args(A, s).objects for s in case['args']]

        def task(calls):
            def go():
                out = []
                for k in calls:
                    c = case['calls'][k]
                    objs = objects[c['arg']]
                    objs = objs[:1] if c.get('first') else objs
                    try:
                        if c.get('kw'):
                            v = function(A, c['fn'])(hypothesis=objs[0], reference=objs[1], **h.options(c))
                        else:
                            v = function(A, c['fn'])(*objs, **h.options(c))
                        out.append(('ok', v, c.get('ordered')))
                    except Exception as exc:
                        out.append(('error', type(exc).__name__, traceback.format_exc()[-700:]))
                return out
            return go
        tasks = [task(t) for t in case['threads']]
        ctx.feature('policy_' + plan[0])
        how = list(plan)
        fine = how[-1] == 'fine'
        if plan[0] == 'native':
            results = sched.native(tasks)
            ctx.events['native_run'] += 1
        else:
            if plan[0] == 'stall':
                v = plan[1]
                if (v, fine) not in lengths:
                    s = sched.Scheduler([tasks[v]], sched.Policy(['rr', 10 ** 9], 1, 0), fine)
                    s.run()
                    lengths[v, fine] = max(1, s.points)
                    objects[:] = [Args(A, x).objects for x in case['args']]
                how = ['stall', v, 1 + int(plan[3] * lengths[v, fine])]
            s = sched.Scheduler(tasks, sched.Policy(how, n, case['seed'] + number), fine)
            results = s.run()
            ctx.events['scheduled_run'] += 1
            ctx.events['scheduling_point'] += s.points
            ctx.events['switch'] += len(s.trace)
            ctx.events['bytecode_point'] += s.opcodes
            if s.opcodes and s.trace:
                ctx.feature('bytecode_switches')
            ctx.events['blocked_thread_bypassed'] += s.stalls
            if s.trace:
                ctx.feature('switched')
                ctx.nontrivial()
                if len(seen) < 20000:
                    seen.append(hashlib.md5(repr((s.trace, case['threads'], case['calls'])).encode('utf-8')).hexdigest()[:12])
                if len(places) < 5000:
                    places.extend('%s:%s' % p for p in s.where)
                    places[:] = sorted(set(places))
            if len(s.trace) > 50:
                ctx.feature('many_switches')
        for t, (status, value) in enumerate(results):
            if status == 'error':
                raise value
            for k, got in zip(case['threads'][t], value):
                c = case['calls'][k]
                got2 = ('ok', norm(got[1], got[2])) if got[0] == 'ok' else ('error', got[1])
                ctx.events['concurrent_result'] += 1
                ctx.expect(got2[0] == want[k][0] and common.same(got2[1], want[k][1]),
                           '%s in thread %d gave %s, alone it gives %s' % (c['fn'], t, short(got2, 300), short(want[k], 300)),
                           schedule=how, call=c, error=got[2] if got[0] == 'error' else None, threads=case['threads'],
                           calls=[case['calls'][j]['fn'] for j in used])
    # nothing lasting either
    for k in used:
        h.check(k, h.invoke(k, h.args[case['calls'][k]['arg']].objects), 'after concurrent calls')
    ctx.feature('sequential_again')
