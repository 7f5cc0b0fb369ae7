"""C16: summaries are population statistics."""
from decimal import Decimal
from fractions import Fraction
import math
from math import gcd
from rv import gen, kinds, oracle
from rv.core import api, short
from rv.checks import common

INTERPRETERS = 'both'
REQUIRED = ['single_value', 'two_values', 'over_100_values', 'over_65536_values', 'integers', 'decimals', 'mixed', 'equal_values', 'negative',
            'large', 'far_from_zero', 'floats', 'floats_with_decimals', 'from_unweighted_metric', 'from_metric', 'reordered', 'from_matrices', 'from_metric_with_options', 'metric_window_diff', 'metric_boundary_similarity'] + ['mapping_' + k for k in kinds.MAPPINGS]
RULE = ('random mappings (1 to thousands of values; integers, decimals of various exponents, floats, metric results with and without the unweighted weights) summarised and '
        'compared with exact population statistics, again after reordering and renaming keys; non-trivial: at least two '
        'different values')
ASSUMPTIONS = ['values agree to the rounding of 28 digit decimals: the mean to 1e-20 of the largest value, the variance to 1e-20 of itself plus the effect of a mean wrong in the 24th digit']


def cases(ctx):
    rng = ctx.rng
    vast = False
    for _ in range(ctx.scale(450, 12000)):
        r = rng.random()
        k = 1 if r < 0.06 else 2 if r < 0.14 else rng.randint(3, 12) if r < 0.85 else rng.randint(13, 150) \
            if r < 0.995 else rng.randint(500, 1500)
        if ctx.worker == 0 and not vast:
            vast, k = True, 66000
        kind = rng.choice(['int', 'dec', 'mixed', 'unit', 'zero_one', 'equal', 'large', 'neg', 'offset', 'float', 'any'])
        base = 10 ** rng.randint(5, 17)
        vals = []
        for _ in range(k):
            if kind == 'int':
                v = rng.randint(-5, 20)
            elif kind == 'zero_one':
                v = rng.choice([0, 1])
            elif kind == 'equal':
                v = vals[0] if vals else rng.choice(['0.3', 7, '1', 0])
            elif kind == 'large':
                v = rng.choice([10 ** 12 + rng.randint(0, 99), str(rng.randint(10 ** 9, 10 ** 10)) + '.25'])
            elif kind == 'offset':      # a small spread far from zero
                v = base + rng.randint(0, 9) if rng.random() < 0.7 else '%d.25' % (base + rng.randint(0, 9))
            elif kind == 'float':
                v = rng.choice([0.5, 0.1, 1.0, 0.0, -2.25, 3e-5, round(rng.random(), rng.randint(1, 17)), rng.random() * 100])
            elif kind == 'any':
                v = rng.choice([0.25, 0.3, rng.random(), 1, 0, 3, '0.75', '0.1', '2'])
            elif kind == 'neg':
                v = str(-rng.random() * 10)[:12] if rng.random() < 0.5 else -rng.randint(0, 9)
                v = v if isinstance(v, int) or 'e' not in v else '-0.5'
            elif kind == 'unit':
                v = str(Decimal(rng.randint(0, 97)) / 97)
            elif kind == 'mixed':
                v = rng.choice([rng.randint(0, 3), '%d.%02d' % (rng.randint(0, 3), rng.randint(0, 99))])
            else:
                v = rng.choice(['0.1', '0.25', '1E-7', '3.5', '0', '1', '12345.678'])
            vals.append(v)
        yield {'vals': vals, 'map': rng.choice(kinds.MAPPINGS), 'keys': rng.choice(['str', 'int', 'tuple'])}
    for _ in range(ctx.scale(60, 1200)):
        yield {'ds': gen.dataset(rng, nmax=20), 'metric': rng.choice(
            ['window_diff', 'pk', 'boundary_similarity', 'segmentation_similarity']), 'unweighted': rng.random() < 0.4,
               'o': dict((k, True) for k in ('one_minus', 'permuted') if rng.random() < 0.3), 'e': gen.encoding(rng, ('mass', 'position', 'nltk'))}
    for _ in range(ctx.scale(20, 400)):
        # statistics of a dictionary of matrices
        yield {'ds': gen.dataset(rng, nmax=20), 'ml': rng.choice(['precision', 'recall', 'fmeasure']), 'version': rng.choice(['micro', 'macro'])}


def expect(ctx, A, mapping, values, info):
    got = ctx.call(A.summarize, mapping)
    ctx.expect(isinstance(got, tuple) and len(got) == 5, 'summary is %s' % short(got), **info)
    n = len(values)
    # exact, on integers over one common denominator
    den = 1
    for v in values:
        den = max(den, v.denominator)
    while any(den % v.denominator for v in values):
        den = 1
        for v in values:
            den = den * v.denominator // gcd(den, v.denominator)
    ints = [int(v * den) for v in values]
    total = sum(ints)
    mean = Fraction(total, n * den)
    var = Fraction(n * sum(x * x for x in ints) - total * total, (n * den) ** 2)
    top = max([1] + [abs(v) for v in values])
    tol = Fraction(1, 10 ** 20)
    for x in got[:4]:
        ctx.expect(common.is_number(x) and not (isinstance(x, Decimal) and not x.is_finite()),
                   'summary contains %r' % (x,), **info)
    g = [Fraction(x) for x in got[:4]]

    # room for rounding: the mean is known to eps, deviations therefore too
    eps = Fraction(1, 10 ** 24) * top
    sd = Fraction(math.sqrt(var)) + eps
    room = tol * var + 3 * eps * sd + eps * eps
    ctx.expect(abs(g[0] - mean) <= tol * top, 'mean is %s, expected %s' % (got[0], float(mean)), **info)
    ctx.expect(abs(g[2] - var) <= room, 'variance is %s, expected %s' % (got[2], float(var)), **info)
    ctx.expect(g[1] >= 0 and abs(g[1] ** 2 - var) <= 2 * room,
               'standard deviation is %s, expected %s' % (got[1], float(var) ** 0.5), **info)
    ctx.expect(g[3] >= 0 and abs(g[3] ** 2 * n - var) <= 3 * room,
               'standard error is %s, expected %s' % (got[3], (float(var) / n) ** 0.5), **info)
    ctx.expect(got[4] == n, 'count is %r, expected %d' % (got[4], n), **info)


def run(case, ctx):
    A = api()
    if 'ml' in case:
        ctx.feature('from_matrices')
        ds = gen.encode_dataset(A, case['ds'], {'f': 'mass', 'c': 'tuple'})
        pairs = ctx.call(A[case['ml']], ctx.call(A.boundary_confusion_matrix, ds), version=getattr(A.Average, case['version']))
        vals = [Fraction(v) for v in pairs.values()]
        if vals:
            expect(ctx, A, pairs, vals, dict(values=pairs))
        if len(set(vals)) > 1:
            ctx.nontrivial()
        return
    if 'ds' in case:
        ctx.feature('from_metric', 'metric_' + case['metric'])
        ds = gen.encode_dataset(A, case['ds'], case['e'])
        kw = dict(case['o'])
        if kw:
            ctx.feature('from_metric_with_options')
        if case['unweighted'] and 'similarity' in case['metric']:
            ctx.feature('from_unweighted_metric')
            kw['weight'] = (A.weight_a, A.weight_s, A.weight_t)
        pairs = ctx.call(A[case['metric']], ds, **kw)
        if not pairs:
            return
        vals = [Fraction(v) for v in pairs.values()]
        expect(ctx, A, pairs, vals, dict(values=pairs))
        if len(set(vals)) > 1:
            ctx.nontrivial()
        return
    raw = [Decimal(v) if isinstance(v, str) else v for v in case['vals']]
    vals = [Fraction(v) for v in raw]
    n = len(vals)
    if n > 1 and len(set(vals)) > 1:
        ctx.nontrivial()
    mixture = set(isinstance(v, str) for v in case['vals'])
    if any(isinstance(v, float) for v in raw):
        ctx.feature('floats')
        if any(isinstance(v, Decimal) for v in raw):
            ctx.feature('floats_with_decimals')
    ctx.feature({1: 'single_value', 2: 'two_values'}.get(n, 'several'), 'mixed' if len(mixture) > 1 else
                'decimals' if True in mixture else 'integers')
    if n > 100:
        ctx.feature('over_100_values')
    if n > 65536:
        ctx.feature('over_65536_values')
    if n > 1 and len(set(vals)) == 1:
        ctx.feature('equal_values')
    if min(vals) < 0:
        ctx.feature('negative')
    if n > 1 and len(set(vals)) > 1 and max(vals) - min(vals) < max(vals) / 10 ** 4:
        ctx.feature('far_from_zero')
    if max(vals) > 10 ** 9:
        ctx.feature('large')

    def key(i):
        return {'str': 'k%d' % i, 'int': i, 'tuple': (i, 'x')}[case['keys']]

    def build(seq, off=0):
        m = {}
        for i, v in enumerate(seq):
            m[key(i + off)] = v
        ctx.feature('mapping_' + case['map'])
        return kinds.mapping(case['map'], m)
    info = dict(values=case['vals'][:60])
    expect(ctx, A, build(raw), vals, info)
    ctx.feature('reordered')
    expect(ctx, A, build(list(reversed(raw)), 5), vals, info)
