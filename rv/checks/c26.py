"""C26: laws every comparison metric obeys (related executions compared with each other)."""
from fractions import Fraction
from rv import gen, kinds, oracle
from rv.core import api, short
from rv.checks import common

INTERPRETERS = 'both'
SHARING = True
EXPLICIT = True
REQUIRED = ['identical_content', 'differing', 'near_miss_only', 'boundary_free', 'one_boundary_free', 'several_types',
            'n_t_1', 'n_t_over_2', 'unweighted', 'full_penalty', 'zero_similarity', 'window_1', 'window_ge_text', 'lamprier',
            'default_window', 'one_unit_segments', 'over_256_units', 'dataset', 'format_sets', 'format_nltk',
            'format_position', 'format_mass', 'mixed_containers']
REQUIRED += ['explicit_' + o for o in ['boundary_types', 'fnc_round', 'n_t', 'one_minus', 'permuted', 'return_parts', 'weight', 'window_size']]
RULE = ('all mass pairs up to 6 (thorough 8) units, small multi-type scopes and random pairs; for each pair the four metrics '
        'are run in both directions, on each with itself, with and without one_minus, and the results compared by the laws; '
        'non-trivial: the two differ')
ASSUMPTIONS = ['weights are the default or the unweighted ones', 'complement to 1e-20 (28 digit decimals; 1e-11 for floats)']


def cases(ctx):
    rng = ctx.rng
    for k, (a, b) in enumerate(common.share(ctx, common.exhaustive_mass_pairs(6 if ctx.quick() else 8))):
        yield {'ma': a, 'mb': b, 'e': gen.encoding(rng), 'n_t': (2, 1, 3, 5)[k % 4], 'k': 1 + k % (sum(a) + 1),
               'u': k % 3 == 0}
    for scope in (common.exhaustive_string_pairs(1, [[], [1], [2], [1, 2], [3], [1, 2, 3]]),
                  common.exhaustive_string_pairs(2, [[], [1], [3], [1, 3]]),
                  common.exhaustive_string_pairs(3, [[], [1], [2]])):
        for k, (a, b) in enumerate(common.share(ctx, scope)):
            yield {'a': a, 'b': b, 'n_t': (2, 3, 1)[k % 3], 'u': k % 2 == 0, 'c': 'list', 's': 'set'}
    for _ in range(ctx.scale(450, 12000)):
        u = rng.random() < 0.3
        if rng.random() < 0.7:
            a, b = gen.mass_pair(rng)
            n = sum(a)
            k = rng.choice([1, 2, 3, 5, 8, n // 2 or 1, max(1, n - 1), n, n + 3])
            yield {'ma': a, 'mb': b, 'e': gen.encoding(rng), 'n_t': gen.n_t(rng, n), 'u': u, 'k': min(k, 40) if n > 60 else k}
        else:
            a, b = gen.string_pair(rng)
            yield {'a': a, 'b': b, 'n_t': gen.n_t(rng, len(a)), 'u': u, 'c': gen.container(rng),
                   's': rng.choice(['set', 'frozenset'])}
    for _ in range(ctx.scale(25, 500)):
        yield {'ds': gen.dataset(rng, nmax=20), 'e': gen.encoding(rng, ('mass', 'position')), 'k': rng.choice([1, 2, 3])}


def in_range(ctx, v, what, info):
    ctx.expect(common.is_number(v), '%s is %s, not a number' % (what, short(v)), **info)
    f = Fraction(v)
    ctx.expect(0 <= f <= 1, '%s is %s, outside of 0 to 1' % (what, v), **info)
    return f


def run(case, ctx):
    A = api()
    if 'ds' in case:
        return run_dataset(case, ctx, A)
    sims = (A.boundary_similarity, A.segmentation_similarity)
    if 'ma' in case:
        x, y = gen.encode(case['ma'], case['e']), gen.encode(case['mb'], common.other_kind(ctx, case, case['e']))
        x2 = gen.encode(case['ma'], dict(case['e'], c=kinds.OTHER[case['e']['c']]))
        fmt = case['e']['f']
        same = case['ma'] == case['mb']
        free = [len(case['ma']) == 1, len(case['mb']) == 1]
        if 1 in (max(case['ma']), max(case['mb'])):
            ctx.feature('one_unit_segments')
        if sum(case['ma']) > 256:
            ctx.feature('over_256_units')
    else:
        x, y, x2 = (gen.as_sets(case[s], case['c'], case['s']) for s in 'aba')
        fmt = 'sets'
        same = [sorted(p) for p in case['a']] == [sorted(p) for p in case['b']]
        free = [not any(case['a']), not any(case['b'])]
        if len(set(t for p in case['a'] + case['b'] for t in p)) > 1:
            ctx.feature('several_types')
    bf = getattr(A.BoundaryFormat, fmt)
    ctx.feature('format_' + fmt, 'identical_content' if same else 'differing')
    if all(free):
        ctx.feature('boundary_free')
    elif any(free):
        ctx.feature('one_boundary_free')
    if not same:
        ctx.nontrivial()
    n_t = case['n_t']
    if n_t == 1 or n_t > 2:
        ctx.feature('n_t_1' if n_t == 1 else 'n_t_over_2')
    info = dict(a=x, b=y, options=case)
    opts = {'boundary_format': bf, 'n_t': n_t}
    if case['u']:
        opts['weight'] = (A.weight_a, A.weight_s, A.weight_t)
        ctx.feature('unweighted')
    for fn in sims:
        name = fn.__name__
        v = in_range(ctx, ctx.call(fn, x, y, **opts), name, info)
        w = in_range(ctx, ctx.call(fn, y, x, **opts), name + ' the other way round', info)
        ctx.expect(oracle.close(v, w), '%s is %s one way and %s the other' % (name, float(v), float(w)), **info)
        common.must_close(ctx, ctx.call(fn, x, y, one_minus=True, **opts), 1 - v, 'one minus ' + name, **info)
        s = in_range(ctx, ctx.call(fn, x, x2, **opts), name + ' with itself', info)
        ctx.expect(s == 1, '%s of a segmentation with itself is %s' % (name, float(s)), **info)
        z = Fraction(ctx.call(fn, y, y, one_minus=True, **opts))
        ctx.expect(z == 0, 'one minus %s of a segmentation with itself is %s' % (name, float(z)), **info)
        if same:
            ctx.expect(v == 1, '%s of identical segmentations is %s' % (name, float(v)), **info)
        elif not oracle.close(1, v):
            ctx.feature('near_miss_only' if v > 0 else 'zero_similarity')
        ctx.expect(same or v < 1, '%s of different segmentations is 1' % name, **info)
        if v == 0:
            ctx.feature('zero_similarity')
    if fmt == 'sets':
        return
    # --- penalties
    n = sum(case['ma'])
    k = case['k']
    if k == 1:
        ctx.feature('window_1')
    if k >= n:
        ctx.feature('window_ge_text')
    got = {}
    variants = [('pk', A.pk, {}), ('wd', A.window_diff, {}), ('lamprier', A.window_diff, {'lamprier_et_al_2007_fix': True})]
    if n > 300:
        variants = variants[:1] + ([variants[1]] if k < 10 else [])
    for name, fn, extra in variants:
        o = dict(extra, boundary_format=bf, window_size=k)
        v = in_range(ctx, ctx.call(fn, x, y, **o), name, info)
        w = in_range(ctx, ctx.call(fn, y, x, **o), name + ' the other way round', info)
        ctx.expect(v == w, '%s is %s one way and %s the other for the same window' % (name, float(v), float(w)), **info)
        common.must_close(ctx, ctx.call(fn, x, y, one_minus=True, **o), 1 - v, 'one minus ' + name, **info)
        s = Fraction(ctx.call(fn, x, x2, **o))
        ctx.expect(s == 0, '%s of a segmentation with itself is %s' % (name, float(s)), **info)
        d = dict(extra, boundary_format=bf)
        s = Fraction(ctx.call(fn, x, x2, **d))
        ctx.expect(s == 0, '%s of a segmentation with itself is %s (default window)' % (name, float(s)), **info)
        v2 = in_range(ctx, ctx.call(fn, x, y, **d), name + ' with the default window', info)
        if same:
            ctx.expect(v == 0 and v2 == 0, '%s of identical segmentations is %s, %s' % (name, float(v), float(v2)), **info)
        if v == 1:
            ctx.feature('full_penalty')
        got[name] = v, v2
        ctx.feature('default_window')
        if name == 'lamprier':
            ctx.feature('lamprier')
    if 'wd' in got:
        for i, what in ((0, 'the same window'), (1, 'the default window')):
            ctx.expect(got['pk'][i] <= got['wd'][i], 'Pk %s exceeds WindowDiff %s for %s' % (
                float(got['pk'][i]), float(got['wd'][i]), what), **info)


def run_dataset(case, ctx, A):
    """the same laws entry by entry over a dataset"""
    ctx.feature('dataset')
    ctx.nontrivial()
    ds = gen.encode_dataset(A, case['ds'], case['e'])
    info = dict(dataset=case['ds'], encoding=case['e'])
    both = {}
    for fn in (A.boundary_similarity, A.segmentation_similarity, A.pk, A.window_diff):
        kw = {'window_size': case['k']} if fn in (A.pk, A.window_diff) else {}
        r = ctx.call(fn, ds, permuted=True, **kw)
        o = ctx.call(fn, ds, permuted=True, one_minus=True, **kw)
        ctx.expect(set(r) == set(o), 'one_minus changes the entries', **info)
        for entry in sorted(r):
            v = in_range(ctx, r[entry], '%s of %s' % (fn.__name__, entry), info)
            common.must_close(ctx, o[entry], 1 - v, 'one minus %s of %s' % (fn.__name__, entry), **info)
        for it, cs in case['ds'].items():
            for c in cs:
                for d in cs:
                    if c != d:
                        e1, e2 = ','.join([it, c, d]), ','.join([it, d, c])
                        ctx.expect(e1 in r and e2 in r, 'no entry for %s' % e1, **info)
                        ctx.expect(oracle.close(r[e1], Fraction(r[e2])), '%s differs between %s and %s' % (fn.__name__, e1, e2), **info)
        both[fn.__name__] = r
    for e in both['pk']:
        ctx.expect(both['pk'][e] <= both['window_diff'][e], 'Pk exceeds WindowDiff for %s' % e, **info)
