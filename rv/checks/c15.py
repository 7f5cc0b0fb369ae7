"""C15: dataset comparisons are exactly the documented pairs with the values of direct calls."""
from itertools import combinations
from rv import gen, kinds, oracle
from rv.core import api, short
from rv.checks import common
from rv.checks.c03 import METRICS, options, lib_options

INTERPRETERS = 'both'
SHARING = True
EXPLICIT = True
REQUIRED = ['one_dataset', 'two_datasets', 'permuted_true', 'permuted_false', 'permuted_default', 'uneven_coders',
            'unshared_items', 'same_coder_both_sides', 'keyword_style', 'wrong_format_argument', 'fresh_format_string',
            'different_formats_refused', 'integer_coders', 'single_coder_item', 'over_10_items', 'integer_items', 'tuple_items', 'mixed_items', 'mixed_coders'] + \
    ['format_' + f for f in ('mass', 'position', 'nltk', 'sets')] + ['metric_' + m for m in METRICS] + \
    ['return_parts', 'one_minus', 'direct_keyword_call', 'with_itself', 'over_5_coders', 'over_20_items', 'over_13_coders', 'over_40_items', 'over_300_units', 'subclass', 'one_of_a_subclass', 'user_weights', 'several_types', 'types_recorded'] + ['mapping_' + k for k in kinds.MAPPINGS]
REQUIRED += ['explicit_' + o for o in ['fnc_round', 'n_t', 'one_minus', 'permuted', 'return_parts', 'weight', 'window_size']]
RULE = ('random datasets (uneven coder sets, unshared items, items named by strings, integers, tuples and all of them together, the same coder name on both sides, every format) through every '
        'pairwise metric with random options and call styles; the key set is enumerated independently and each value '
        'compared with a direct call; non-trivial: at least two entries with different values')
ASSUMPTIONS = ['the names of the items, written as strings, differ and contain no commas that could be confused with the separators', 'coder names contain no comma']


def cases(ctx):
    rng = ctx.rng
    for _ in range(ctx.scale(420, 9000)):
        m = rng.choice(METRICS)
        items = rng.choice([1, 2, 2, 3, 4, 12]) if rng.random() < 0.9 else rng.randint(11, 25)
        ds = gen.dataset(rng, items=items, full=rng.random() < 0.4, nmax=14 if items > 6 else 24)
        case = {'metric': m, 'ds': ds, 'o': options(rng, m, 12), 'e': None, 'style': rng.choice(['pos', 'kw']),
                'permuted': rng.choice([None, None, True, False]), 'wrong': rng.random() < 0.15,
                'own': rng.choice([[0], [1], [0, 1]]) if rng.random() < 0.1 else [], 'ints': rng.choice([1, 1, 2]) if rng.random() < 0.2 else 0, 'items': rng.choice(['int', 'tuple', 'mixed', 'mixed']) if rng.random() < 0.25 else 'str', 'fresh': rng.random() < 0.15}
        formats = ('mass', 'position', 'nltk') if m in ('pk', 'window_diff') else ('mass', 'position', 'nltk', 'sets')
        case['e'] = gen.encoding(rng, formats)
        if 'window_size' in case['o']:
            case['o']['window_size'] = rng.randint(1, 12)
        if case['e']['f'] == 'sets' and rng.random() < 0.6:
            case['types'] = rng.choice([[1, 2], [1, 2, 3], [3], [2, 9], [0, -4, 300]])
        if rng.random() < 0.15:
            case['map'] = [rng.choice(kinds.MAPPINGS) for _ in range(3)]
        if rng.random() < 0.2:
            case['recorded'] = rng.choice([[], [1], [1, 2], [5]])
        if rng.random() < 0.45:
            other = {}
            for it, cs in ds.items():
                if rng.random() < 0.2:
                    continue
                new = {}
                for c, x in cs.items():
                    r = rng.random()
                    if r < 0.25:
                        continue
                    new[c if r < 0.6 else 'auto ' + c] = gen.jitter(rng, x)
                other[it] = new
            if rng.random() < 0.4:
                n = rng.randint(2, 20)
                other['only right'] = {'c0': gen.masses(rng, n), 'zz': gen.masses(rng, n)}
            case['ds2'] = other
            case['e2'] = dict(case['e'])
            if case['e2']['f'] == 'position':
                case['e2']['labels'] = rng.choice(gen.LABELS)
            if rng.random() < 0.15:
                case['mismatch'] = True
        elif rng.random() < 0.15:
            case['self'] = True
        yield case


def retype(dataset, types):
    """give the boundaries of a dataset of boundary strings other types, some positions several or other ones"""
    for i, (it, cs) in enumerate(sorted(dataset.items(), key=repr)):
        for j, (c, segs) in enumerate(sorted(cs.items(), key=repr)):
            cs[c] = type(segs)(
                type(x)(t for k, t in enumerate(types) if (p * 7 + k * 3 + (p * j + i) % 3) % 4 < (3 if x else 0) or
                        (not x and (p * 5 + j + k) % 11 == 0)) for p, x in enumerate(segs))


def run(case, ctx):
    A = api()
    fn = A[case['metric']]
    name = case['metric']
    ctx.feature('metric_' + name, 'format_' + case['e']['f'])
    o = lib_options(case['o'])
    if 'w' in case['o']:
        ctx.feature('user_weights')
    for k in ('return_parts', 'one_minus'):
        if o.get(k):
            ctx.feature(k)
    o_call = dict(o)
    fmt = gen.boundary_format(A, case['e'])
    if case['wrong']:
        ctx.feature('wrong_format_argument')
        o_call['boundary_format'] = A.BoundaryFormat.sets if case['e']['f'] != 'sets' else A.BoundaryFormat.mass
    models = [case['ds']] + ([case['ds2']] if 'ds2' in case else [])
    if case['ints']:
        ctx.feature('integer_coders' if case['ints'] == 1 else 'mixed_coders')
        names = {}
        models = [dict((it, dict((names.setdefault(c, 1000 + len(names) if case['ints'] == 1 or len(names) % 2 else c), x) for c, x in cs.items()))
                       for it, cs in d.items()) for d in models]
    if case['items'] != 'str':
        ctx.feature({'int': 'integer_items', 'tuple': 'tuple_items', 'mixed': 'mixed_items'}[case['items']])
        known = {}

        def named(it):
            k = len(known)
            how = case['items'] if case['items'] != 'mixed' else ('str', 'int', 'tuple', 'none')[k % 4]
            if how == 'none':
                how = 'int' if None in known.values() else how
            return known.setdefault(it, {'int': k - 2, 'tuple': ('text', k), 'str': 'n%d' % k, 'none': None}[how])
        models = [dict((named(it), cs)
                       for it, cs in d.items()) for d in models]
    sets = []
    for d, e in zip(models, (case['e'], case.get('e2'))):
        sets.append(gen.encode_dataset(A, d, e, cls=kinds.corpus() if len(sets) in case['own'] else None))
    if 'types' in case:
        # boundaries of several types
        ctx.feature('several_types')
        for d in sets:
            retype(d, case['types'])
    if 'map' in case:
        # the codings of every item in another kind of mapping
        ctx.feature(*['mapping_' + k for k in case['map']])
        for d in sets:
            for k, it in enumerate(list(d)):
                d[it] = kinds.mapping(case['map'][k % len(case['map'])], d[it])
    if 'recorded' in case:
        ctx.feature('types_recorded')
        for d in sets:
            d.boundary_types = set(case['recorded'])
    if case['fresh']:
        # the format given as an equal string that is not the enumeration's object
        ctx.feature('fresh_format_string')
        for d in sets:
            d.boundary_format = ''.join(list(d.boundary_format))
    if any(type(d) is kinds.corpus() for d in sets):
        ctx.feature('subclass')
        if not all(type(d) is kinds.corpus() for d in sets):
            ctx.feature('one_of_a_subclass')
    if case.get('self'):
        # the same dataset object as both
        ctx.feature('with_itself')
        sets.append(sets[0])
        models.append(models[0])
    if not all(sets):
        return
    expected = {}          # alternatives of keys -> segmentation pair (masses)
    if len(sets) == 2:
        if case.get('mismatch'):
            ctx.feature('different_formats_refused')
            f2 = [f for f in ('mass', 'position', 'nltk', 'sets') if f != case['e']['f']][len(models[0]) % 3]
            bad = gen.encode_dataset(A, models[1], {'f': f2, 'c': 'tuple'})
            st, e = ctx.outcome(fn, sets[0], bad, **o)
            ctx.expect(st == 'error' and isinstance(e, A.SegmentationMetricError),
                       'datasets of formats %s and %s: %s' % (case['e']['f'], f2, short(e)))
        ctx.feature('two_datasets')
        if set(models[0]) != set(models[1]):
            ctx.feature('unshared_items')
        permuted = None
        for it in models[0]:
            if it in models[1]:
                for m in models[0][it]:
                    for n in models[1][it]:
                        if m == n:
                            ctx.feature('same_coder_both_sides')
                        expected[(','.join([str(it), str(m), str(n)]),)] = [(0, it, m, 1, n)]
    else:
        ctx.feature('one_dataset')
        permuted = case['permuted']
        effective = permuted if permuted is not None else name in ('pk', 'window_diff')
        ctx.feature('permuted_default' if permuted is None else 'permuted_true' if permuted else 'permuted_false')
        for it, cs in models[0].items():
            if len(cs) == 1:
                ctx.feature('single_coder_item')
            for m, n in combinations(sorted(cs, key=repr), 2):
                k1, k2 = ','.join([str(it), str(m), str(n)]), ','.join([str(it), str(n), str(m)])
                if effective:
                    expected[(k1,)] = [(0, it, m, 0, n)]
                    expected[(k2,)] = [(0, it, n, 0, m)]
                else:
                    expected[(k1, k2)] = [(0, it, m, 0, n), (0, it, n, 0, m)]
    if len(models[0]) > 10:
        ctx.feature('over_10_items')
    if len(models[0]) > 20:
        ctx.feature('over_20_items')
    if len(models[0]) > 40:
        ctx.feature('over_40_items')
    if any(len(cs) > 13 for cs in models[0].values()):
        ctx.feature('over_13_coders')
    if any(sum(x) > 300 for cs in models[0].values() for x in cs.values()):
        ctx.feature('over_300_units')
    if any(len(cs) > 5 for cs in models[0].values()):
        ctx.feature('over_5_coders')
    if len(set(frozenset(cs) for cs in models[0].values())) > 1:
        ctx.feature('uneven_coders')
    if case['permuted'] is not None:
        o_call['permuted'] = case['permuted']
    if case['style'] == 'kw':
        ctx.feature('keyword_style')
        if len(sets) == 2:
            pair = [('hypothesis', sets[0]), ('reference', sets[1])]
            got = ctx.call(fn, **dict(list(o_call.items()) + (pair[::-1] if common.flip(case) else pair)))
        else:
            got = ctx.call(fn, dataset=sets[0], **o_call)
    else:
        got = ctx.call(fn, *sets, **o_call)
    info = dict(dataset=case['ds'], second=case.get('ds2'), options=case['o'], format=case['e'], permuted=case['permuted'])
    ctx.expect(isinstance(got, dict), 'result is %s' % short(got), **info)
    left = set(got)
    values = []
    for keys, refs in expected.items():
        present = [i for i, k in enumerate(keys) if k in left]
        ctx.expect(len(present) == 1, 'entry %s of %r %s' % (' or '.join(keys), sorted(got)[:12],
                   'missing' if not present else 'twice'), **info)
        i = present[0]
        left.discard(keys[i])
        d1, it, m, d2, n = refs[i]
        x, y = sets[d1][it][m], sets[d2][it][n]
        if len(values) % 2:
            ctx.feature('direct_keyword_call')
            want = ctx.call(fn, hypothesis=x, reference=y, boundary_format=fmt, **o)
        else:
            want = ctx.call(fn, x, y, boundary_format=fmt, **o)
        values.append(want)
        ctx.expect(common.same(common.canonical(got[keys[i]]), common.canonical(want)),
                   'entry %r is %s, but comparing the two segmentations directly gives %s' % (
                       keys[i], short(got[keys[i]], 200), short(want, 200)), **info)
    ctx.expect(not left, 'undocumented entries %r' % sorted(left)[:10], **info)
    if len(values) > 1 and not all(common.same(common.canonical(v), common.canonical(values[0])) for v in values):
        ctx.nontrivial()
