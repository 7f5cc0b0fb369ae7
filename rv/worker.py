"""One worker process: drives one stream of cases of one property."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--worker', type=int, default=0)
    ap.add_argument('--workers', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--interp', default='pypy')
    ap.add_argument('--out', required=True)
    ap.add_argument('--budget', type=float, default=300)
    ap.add_argument('--replay')
    ap.add_argument('--upto', type=int)
    args = ap.parse_args()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    from rv import core
    result = {'status': 'error', 'violations': []}
    try:
        module = importlib.import_module('rv.checks.' + args.prop.lower())
        ctx = core.Ctx(args.prop, args.tier, args.seed, args.worker, args.workers, args.interp)
        ctx.factor = getattr(module, 'QUICK_FACTOR', 2)
        if args.replay:
            with open(args.replay) as f:
                cases = [json.load(f)['case']]
        else:
            # each case is passed through JSON so that a replay file is the very same case
            cases = (json.loads(json.dumps(c)) for c in module.cases(ctx))
            if args.upto is not None:
                import itertools
                cases = itertools.islice(cases, args.upto + 1)

        def on_violation(index, case, v):
            result['violations'].append({
                'index': index, 'case': case, 'message': v.message, 'details':
                dict((k, core.short(x, 3000)) for k, x in v.details.items())})
        truncated = core.run_cases(module, ctx, cases, on_violation,
                                   deadline=time.time() + args.budget)
        if hasattr(module, 'finish'):
            module.finish(ctx)
        result.update({
            'status': 'done', 'truncated': truncated, 'evaluations': ctx.evaluations,
            'events': dict(ctx.events), 'features': dict(ctx.features),
            'sigs': sorted(ctx.sigs), 'samples': ctx.samples, 'extra': ctx.extra})
    except BaseException as exc:     # harness error: reported as such, never as a verdict
        result['error'] = '%s: %s' % (type(exc).__name__, exc)
        result['traceback'] = traceback.format_exc()[-4000:]
    with open(args.out, 'w') as f:
        json.dump(result, f, default=str)
    return 0 if result['status'] == 'done' else 2


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
