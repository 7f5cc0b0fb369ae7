"""Workload shared by the monitors of the edit-distance based metrics (C06-C09)."""
from rv import gen, oracle
from rv.checks import common

FEATURES = ['mixed_containers', 'with_transpositions', 'with_substitutions', 'with_additions', 'several_types', 'boundary_free',
            'identical', 'n_t_over_2', 'n_t_1', 'user_weights', 'unweighted', 'format_mass', 'format_position',
            'format_nltk', 'format_sets', 'over_100_positions', 'over_65536_positions', 'over_16_types', 'keyword_style', 'type_over_256',
            'zero_or_negative_type', 'single_unit', 'float_weights',
            'weights_mixed', 'weights_list', 'weights_partial', 'weights_objects', 'weights_methods']


def cases(ctx, quick, thorough, additive=False):
    rng = ctx.rng
    # small scopes, completely
    for k, (a, b) in enumerate(common.share(ctx, [([1], [1])] * 60 + list(common.exhaustive_mass_pairs(5 if ctx.quick() else 7)))):
        yield {'ma': a, 'mb': b, 'e': gen.encoding(rng), 'n_t': (2, 1, 3, 4)[k % 4], 'w': gen.weights(rng, additive),
               'call': rng.choice(['pos', 'kw'])}
    for scope in (common.exhaustive_string_pairs(1, [[], [1], [2], [1, 2], [3], [2, 3]]),
                  common.exhaustive_string_pairs(2, [[], [1], [3], [1, 3]]),
                  common.exhaustive_string_pairs(3, [[], [1], [2]])):
        for k, (a, b) in enumerate(common.share(ctx, scope)):
            yield {'a': a, 'b': b, 'n_t': (2, 3, 1)[k % 3], 'w': gen.weights(rng, additive), 'call': 'pos',
                   'c': gen.container(rng), 's': rng.choice(['set', 'frozenset'])}
    for _ in common.share(ctx, range(1 if ctx.quick() else 16)):
        a, b = gen.huge_pair(rng)
        yield {'ma': a, 'mb': b, 'e': gen.encoding(rng), 'n_t': 2, 'w': gen.weights(rng, additive), 'call': rng.choice(['pos', 'kw'])}
    for _ in range(ctx.scale(quick, thorough)):
        if rng.random() < 0.5:
            a, b = gen.mass_pair(rng)
            yield {'ma': a, 'mb': b, 'e': gen.encoding(rng), 'n_t': gen.n_t(rng, sum(a)),
                   'w': gen.weights(rng, additive), 'call': rng.choice(['pos', 'kw'])}
        else:
            a, b = gen.string_pair(rng)
            yield {'a': a, 'b': b, 'n_t': gen.n_t(rng, len(a)), 'w': gen.weights(rng, additive),
                   'call': rng.choice(['pos', 'kw']),
                   'c': gen.container(rng), 's': rng.choice(['set', 'frozenset'])}


def materialise(case, ctx, A):
    """-> (library arguments, library options, model strings, n_t, Weights)"""
    if 'ma' in case:
        e = case['e']
        x, y = gen.encode(case['ma'], e), gen.encode(case['mb'], common.other_kind(ctx, case, e))
        a, b = oracle.masses_to_string(case['ma']), oracle.masses_to_string(case['mb'])
        fmt = e['f']
    else:
        e = {'f': 'sets', 'c': case['c'], 'set': case['s']}
        e2 = common.other_kind(ctx, case, e)
        x, y = gen.as_sets(case['a'], e['c'], e['set']), gen.as_sets(case['b'], e2['c'], e2['set'])
        a, b = list(gen.as_sets(case['a'])), list(gen.as_sets(case['b']))
        fmt = 'sets'
    w = oracle.Weights(case['w'])
    opts = {}
    if fmt != 'mass' or case['call'] == 'kw':
        opts['boundary_format'] = getattr(A.BoundaryFormat, fmt)
    if case['n_t'] != 2 or case['call'] == 'kw':
        opts['n_t'] = case['n_t']
    ctx.feature('format_' + fmt)
    if not a:
        ctx.feature('single_unit')
    if case['call'] == 'kw':
        ctx.feature('keyword_style')
    lib = w.library(A)
    if lib is not None:
        opts['weight'] = lib
        ctx.feature('unweighted' if case['w']['kind'] == 'unweighted' else 'user_weights')
        if 'pick' in case['w']:
            ctx.feature('weights_mixed')
        if 'form' in case['w']:
            ctx.feature('weights_' + case['w']['form'])
        if 'float' in case['w'].get('nums', ()):
            ctx.feature('float_weights')
    return x, y, opts, a, b, case['n_t'], w


def call(ctx, fn, case, x, y, **opts):
    return common.call_pair(ctx, fn, case, x, y, opts)
