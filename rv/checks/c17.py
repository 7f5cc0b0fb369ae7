"""C17: actual agreement pools the comparison over all coder pairs and items."""
from rv import oracle
from rv.core import api, short
from rv.checks import common, agree

INTERPRETERS = 'both'
SHARING = True
EXPLICIT = True
REQUIRED = agree.FEATURES + ['user_compare', 'parts_compared', 'parts_with_one_minus']
REQUIRED += ['compare_form_%d' % k for k in range(4)] + ['compare_raises']
REQUIRED += ['explicit_' + o for o in ['one_minus', 'return_parts', 'n_t', 'weight', 'fnc_compare']]
RULE = ('random fully coded datasets in every format, built in nine ways (constructor, assignment, merging, files, copies, '
        'plain dictionaries, after deletions), default and user comparison functions, weights and n_t; the pooled value '
        'compared with the exact sum over pairs; non-trivial: not complete agreement')


class Callable(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, *args, **kwargs):
        return self.f(*args, **kwargs)

    def method(self, *args, **kwargs):
        return self.f(*args, **kwargs)


class Mine(ValueError):
    pass


def cases(ctx):
    return agree.cases(ctx, 850, 18000)


def run(case, ctx):
    A = api()
    strings = agree.model(case)
    agree.describe(case, ctx, strings)
    ds, opts = agree.build(case, ctx, A)
    o, w = agree.options(case, ctx, A)
    opts.update(o)
    exp = oracle.agreement(strings, case['compare'] or 'B', case['n_t'], w)
    info = dict(dataset=ds, options=dict((k, v) for k, v in case.items() if k not in ('masses', 'strings')))
    fn = A.actual_agreement_linear
    common.must_close(ctx, ctx.call(fn, ds, **opts), exp['A'], 'actual agreement', **info)
    common.must_close(ctx, ctx.call(fn, ds, one_minus=True, **opts), 1 - exp['A'], 'one minus actual agreement', **info)
    parts = ctx.call(fn, ds, **dict(opts, **common.parts_options(ctx, case)))
    ctx.expect(len(parts) >= 2, 'parts are %s' % short(parts), **info)
    common.must_close(ctx, sum(parts[0]), sum(exp['nums']), 'sum of the numerators', **info)
    common.must_close(ctx, sum(parts[1]), sum(exp['dens']), 'sum of the denominators', **info)
    # the potential boundaries of each comparison, and what each coder placed of them
    ctx.expect(len(parts) == 4 and isinstance(parts[3], dict), 'parts are %s' % short(parts), **info)
    ctx.feature('parts_compared')
    ctx.expect(sorted(parts[2]) == sorted(exp['pbs']), 'potential boundaries are %s, expected %s' % (
        short(parts[2]), short(exp['pbs'])), **info)
    items, coder_label = agree.names(case)
    for cs in strings.values():
        for c in cs:
            coder_label(c)
    placed = dict((c, sorted(tuple(x) for x in v)) for c, v in parts[3].items())
    ctx.expect(placed == dict((coder_label(c), sorted(v)) for c, v in exp['info'].items()), 'boundaries by coder are %s, expected %s' % (
        short(placed), short(exp['info'])), **info)
    # a comparison function of the caller's own, observing what it is given
    seen = []
    n_items = len(strings)
    coders = sorted(list(strings.values())[0])

    def user_compare(segs_a, segs_b, **kwargs):
        seen.append((segs_a, segs_b))
        x, y = len(list(segs_a)), len(list(segs_b))
        parts = (x + y, x * y + 7, 'ignored')
        return parts if kwargs.get('return_parts') else parts[0]
    # whatever kind of callable it is
    import functools
    form = sum(map(len, strings)) % 4
    ctx.feature('compare_form_%d' % form)
    dressed = [user_compare, functools.partial(user_compare), Callable(user_compare), Callable(user_compare).method][form]
    opts2 = dict(opts, fnc_compare=dressed)
    ctx.feature('user_compare')
    got = ctx.call(fn, ds, **opts2)
    num = den = 0
    data = ds
    for it in data:
        cs = sorted(data[it], key=repr)
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                x, y = len(data[it][cs[i]]), len(data[it][cs[j]])
                num += x + y
                den += x * y + 7
    from fractions import Fraction
    common.must_close(ctx, got, Fraction(num, den), 'agreement by a user comparison', **info)
    ctx.expect(len(seen) == n_items * len(coders) * (len(coders) - 1) // 2,
               'the comparison was called %d times for %d items and coders %r' % (len(seen), n_items, coders), **info)
    # and an error it raises reaches the caller
    count = [len(str(case)) % len(seen) if seen else 0]

    def refusing(segs_a, segs_b, **kwargs):
        count[0] -= 1
        if count[0] < 0:
            raise Mine('not these two')
        return user_compare(segs_a, segs_b, **kwargs)
    ctx.feature('compare_raises')
    st, v = ctx.outcome(fn, ds, **dict(opts, fnc_compare=refusing))
    ctx.expect(st == 'error' and isinstance(v, Mine), 'the comparison raised an error and the agreement is %s' % short(v), **info)
