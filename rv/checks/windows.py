"""Workload shared by the monitors of the window metrics (C12, C13)."""
from rv import gen, oracle
from rv.checks import common

FEATURES = ['mixed_containers', 'window_default', 'window_given', 'window_0', 'window_1', 'window_ge_text', 'window_over_255', 'rounding_given',
            'format_mass', 'format_position', 'format_nltk', 'over_256_units', 'over_65536_units', 'keyword_style', 'half_rounding', 'single_unit', 'window_over_many_segments']


def cases(ctx, quick, thorough, limit):
    rng = ctx.rng
    for k, (a, b) in enumerate(common.share(ctx, [([1], [1])] * 60 + list(common.exhaustive_mass_pairs(limit)))):
        c = {'a': a, 'b': b, 'e': gen.encoding(rng, ('mass', 'position', 'nltk')), 'call': rng.choice(['pos', 'kw'])}
        if k % 2:
            c['k'] = rng.randint(0, sum(a) + 1)
        yield c
    for _ in range(ctx.scale(quick, thorough)):
        a, b = gen.mass_pair(rng)
        n = sum(a)
        c = {'a': a, 'b': b, 'e': gen.encoding(rng, ('mass', 'position', 'nltk')), 'call': rng.choice(['pos', 'kw'])}
        r = rng.random()
        if r < 0.45:
            c['k'] = rng.choice([0, 1, 2, 2, 3, 4, 5, 7, 10, 15, n // 2 or 1, max(1, n - 1), n, n + 1, n + 5])
            if n > 60:
                c['k'] = min(c['k'], 60)
        elif r < 0.65:
            c['r'] = rng.choice(['floor', 'ceil', 'plus3', 'floor_object', 'ceil_partial', 'half_up_float', 'half_up_decimal', 'const7', 'const1'])
        yield c
    for _ in common.share(ctx, range(2 if ctx.quick() else 24)):
        a, b = gen.huge_pair(rng)
        c = {'a': a, 'b': b, 'e': gen.encoding(rng, ('mass', 'position', 'nltk')), 'call': rng.choice(['pos', 'kw'])}
        c['k'] = rng.choice([1, 2, 3, 7])
        yield c
    for _ in range(ctx.scale(6, 120)):
        # windows and texts beyond the range of small cached integers
        n = rng.randint(258, 700)
        a, b = gen.mass_pair(rng, n)
        yield {'a': a, 'b': b, 'e': gen.encoding(rng, ('mass', 'position')), 'call': 'pos',
               'k': rng.choice([255, 256, 257, 258, n - 1, n - 2, n])}


    for _ in range(ctx.scale(16, 200)):
        # windows that span very many segments
        span = rng.choice([10, 16, 32, 50, 64, 99, 100, 101, 127, 128, 150, 200, 250, 255, 256, 300])
        density = rng.choice([1.0, 0.97, 0.9, 0.8])
        k = int(span / density) + rng.randint(-1, 2)
        n = k + rng.randint(2, 120)
        many = [1] * n if density == 1.0 else gen.masses_from_ends(n, [e for e in range(1, n) if rng.random() < density])
        few = rng.choice([[n], gen.masses(rng, n), many[:1] + [n - many[0]]])
        a, b = rng.choice([(many, few), (few, many), (many, gen.jitter(rng, many))])
        yield {'a': a, 'b': b, 'e': gen.encoding(rng, ('mass', 'position', 'nltk')), 'call': rng.choice(['pos', 'kw']), 'k': k,
               'spanning': 1}


def materialise(case, ctx, A):
    a, b = case['a'], case['b']
    n = sum(b)
    e = case['e']
    opts = {}
    if e['f'] != 'mass' or case['call'] == 'kw':
        opts['boundary_format'] = gen.boundary_format(A, e)
    ctx.feature('format_' + e['f'])
    if n == 1:
        ctx.feature('single_unit')
    if 'k' in case:
        k = case['k']
        opts['window_size'] = k
        ctx.feature('window_given')
    else:
        k = oracle.window_size(b, case.get('r', 'even'))
        ctx.feature('window_default')
        if (2 * k) % 1 == 0 and sum(b) % len(b) == 0 and (sum(b) // len(b)) % 2 == 1:
            ctx.feature('half_rounding')
    if case.get('r'):
        opts['fnc_round'] = oracle.library_round(case['r'])
        ctx.feature('rounding_given')
    if case.get('spanning'):
        ctx.feature('window_over_many_segments')
    if k == 0:
        ctx.feature('window_0')
    if k == 1:
        ctx.feature('window_1')
    if k >= n:
        ctx.feature('window_ge_text')
    if k > 255:
        ctx.feature('window_over_255')
    if n > 256:
        ctx.feature('over_256_units')
    if n > 65536:
        ctx.feature('over_65536_units')
    if case['call'] == 'kw':
        ctx.feature('keyword_style')
    return gen.encode(a, e), gen.encode(b, common.other_kind(ctx, case, e)), opts, k


def call(ctx, fn, case, x, y, **opts):
    return common.call_pair(ctx, fn, case, x, y, opts)
