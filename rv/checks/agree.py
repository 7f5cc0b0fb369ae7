"""Workload shared by the monitors of the agreement coefficients (C17, C18)."""
import json
import os
from rv import gen, kinds, oracle

ROUTES = ['constructor', 'assign', 'assign_item', 'merge', 'imerge', 'copy', 'dict', 'json', 'deleted']
FEATURES = ['route_' + r for r in ROUTES] + ['format_' + f for f in ('mass', 'position', 'nltk', 'sets')] + \
    ['several_types', 'compare_S', 'compare_B', 'user_weights', 'n_t_given', 'two_coders', 'over_3_coders', 'one_item',
     'several_items', 'complete_agreement', 'different_lengths',
     'types_recorded', 'types_recorded_too_many', 'types_recorded_too_few', 'over_6_coders', 'over_12_items', 'over_13_coders', 'over_40_items', 'over_300_units', 'over_16_types'] + ['named_' + n for n in gen.NAMES] + ['mapping_' + k for k in kinds.MAPPINGS]


# boundary types recorded on the dataset: what is in the codings counts, not what is recorded
RECORDED = [None, None, None, 'exact', 'more', 'fewer', 'other', 'none']


def recorded_types(case, ctx, strings):
    real = set(t for cs in strings.values() for s in cs.values() for p in s for t in p)
    how = case.get('recorded')
    if how == 'exact':
        types = set(real)
    elif how == 'more':
        types = real | set([max(real or [1]) + 1, max(real or [1]) + 5])
        ctx.feature('types_recorded_too_many')
    elif how == 'fewer':
        types = set(sorted(real)[1:])
        ctx.feature('types_recorded_too_few')
    elif how == 'other':
        types = set([1, 7]) if 7 not in real else set([1, 2])
    else:
        types = set()
    ctx.feature('types_recorded')
    return types


def cases(ctx, quick, thorough):
    rng = ctx.rng
    for _ in range(ctx.scale(quick, thorough)):
        case = {'route': rng.choice(ROUTES), 'n_t': gen.n_t(rng, 10) if rng.random() < 0.4 else 2,
                'compare': rng.choice([None, 'B', 'S', 'S']), 'recorded': rng.choice(RECORDED), 'w': gen.weights(rng) if rng.random() < 0.4 else None}
        if rng.random() < 0.7:
            ds = gen.dataset(rng, nmax=rng.choice([6, 12, 25]), coders=rng.choice([2, 2, 3, 3, 4, 5]))
            if rng.random() < 0.1:
                ds = dict((it, dict((c, list(cs.values())[0]) for c in cs)) for it, cs in ds.items())
            if not gen.agreeable(ds):
                continue
            e = gen.encoding(rng)
            if case['route'] == 'json':
                e = {'f': 'mass', 'c': 'tuple'}
            case.update({'masses': ds, 'e': e})
        else:
            types = rng.choice([t for t in gen.TYPE_SETS if len(t) <= 4])
            some = rng.random() < 0.02
            if some:
                types = sorted(rng.sample(range(1, 300), rng.randint(17, 70)))
            coders = ['c%d' % i for i in range(rng.choice([2, 3, 3, 4]))]
            rng.shuffle(coders)
            ds = {}
            for i in range(rng.choice([1, 2, 3])):
                base = gen.cap(gen.string(rng, rng.randint(1, 15), types)) if not some else \
                    [sorted(rng.sample(types, rng.choice([0, 1, 1, 2]))) for _ in range(rng.randint(20, 40))]
                ds['i%d' % i] = dict((c, gen.cap(gen.mutate_string(rng, base, types)) if rng.random() < 0.85 else base)
                                     for c in coders)
            flat = [p for cs in ds.values() for s in cs.values() for p in s]
            if not any(flat) or all(len(p) == len(types) for p in flat):
                continue
            if case['route'] == 'json':
                case['route'] = 'copy'
            case['strings'] = ds
        case['names'] = rng.choice(gen.NAMES) if rng.random() < 0.3 and case['route'] != 'json' else 'plain'
        case['map'] = [rng.choice(kinds.MAPPINGS) for _ in range(2)]
        yield case


def model(case):
    if 'masses' in case:
        return dict((it, dict((c, oracle.masses_to_string(m)) for c, m in cs.items())) for it, cs in case['masses'].items())
    return dict((it, dict((c, list(gen.as_sets(s))) for c, s in cs.items())) for it, cs in case['strings'].items())


def names(case):
    return gen.Names(case['names']), gen.Names(case['names'])


def saturated(strings):
    return oracle.agreement(strings, 'S')['E_pi'] == 1 or oracle.agreement(strings, 'S')['E_kappa'] == 1


def build(case, ctx, A, rename=None, reverse=False):
    """the dataset, built the way the case says -> (dataset, options needed)"""
    if 'masses' in case:
        fmt = case['e']['f']
        data = dict((it, dict((c, gen.encode(m, case['e'])) for c, m in cs.items())) for it, cs in case['masses'].items())
    else:
        fmt = 'sets'
        data = dict((it, dict((c, gen.as_sets(s)) for c, s in cs.items())) for it, cs in case['strings'].items())
    if rename:
        data = dict((rename[0](it), dict((rename[1](c), s) for c, s in cs.items())) for it, cs in data.items())
    ctx.feature('named_' + case['names'])
    items, coders = names(case)
    # the labels are given out in the order of the case, whatever the order of the dataset
    data = dict((items(it), dict((coders(c), s) for c, s in cs.items())) for it, cs in data.items())
    if reverse:
        data = dict(reversed([(it, dict(reversed(list(cs.items())))) for it, cs in data.items()]))
    bf = getattr(A.BoundaryFormat, fmt)
    ctx.feature('format_' + fmt)
    route = case['route']
    if route == 'json' and not ctx.interp.startswith('pypy'):
        route = 'copy'
    ctx.feature('route_' + route)
    opts = {}
    if route == 'constructor':
        ds = A.Dataset(data, boundary_format=bf)
    elif route == 'dict':
        ctx.feature(*['mapping_' + k for k in case['map']])
        ds = kinds.nested(case['map'], data)
        if fmt != 'mass':
            opts['boundary_format'] = bf
    elif route == 'assign':
        ds = A.Dataset(boundary_format=bf)
        for it, cs in data.items():
            for c, s in cs.items():
                ds[it][c] = s
    elif route == 'assign_item':
        ds = A.Dataset(boundary_format=bf)
        for it, cs in data.items():
            ds[it] = cs
    elif route in ('merge', 'imerge'):
        parts = []
        for it, cs in data.items():
            cl = list(cs.items())
            parts.append({it: dict(cl[:1])})
            parts.append({it: dict(cl[1:])})
        ds = A.Dataset(parts[0], boundary_format=bf)
        for p in parts[1:]:
            other = A.Dataset(p, boundary_format=bf)
            if route == 'merge':
                ds = ds + other
            else:
                ds += other
    elif route == 'copy':
        ds = A.Dataset(data, boundary_format=bf).copy()
    elif route == 'deleted':
        extra = dict((it, dict(cs, gone=list(cs.values())[0])) for it, cs in data.items())
        ds = A.Dataset(extra, boundary_format=bf)
        for it in ds:
            del ds[it]['gone']
    elif route == 'json':
        path = os.path.join(os.environ.get('RV_SCRATCH', '/tmp'), 'agree.json')
        with open(path, 'w') as f:
            json.dump({'segmentation_type': 'linear', 'items': data}, f)
        ds = ctx.call(A.input_linear_mass_json, path)
        os.unlink(path)
    else:
        raise KeyError(route)
    if case.get('recorded') and isinstance(ds, A.Dataset):
        types = recorded_types(case, ctx, model(case))
        if route == 'constructor':
            ds = A.Dataset(data, boundary_format=bf, boundary_types=types)
        else:
            ds.boundary_types = types
    return ds, opts


def options(case, ctx, A):
    opts = {}
    if case['n_t'] != 2:
        opts['n_t'] = case['n_t']
        ctx.feature('n_t_given')
    w = oracle.Weights(case['w'])
    lib = w.library(A)
    if lib:
        opts['weight'] = lib
        ctx.feature('user_weights')
    if case['compare'] == 'S':
        opts['fnc_compare'] = A.segmentation_similarity
    elif case['compare'] == 'B':
        opts['fnc_compare'] = A.boundary_similarity
    ctx.feature('compare_S' if case['compare'] == 'S' else 'compare_B')
    return opts, w


def describe(case, ctx, strings):
    items = list(strings.values())
    ctx.feature('one_item' if len(items) == 1 else 'several_items')
    k = len(items[0])
    ctx.feature({2: 'two_coders', 3: 'three_coders'}.get(k, 'over_3_coders'))
    if k > 6:
        ctx.feature('over_6_coders')
    if len(items) > 12:
        ctx.feature('over_12_items')
    if k > 13:
        ctx.feature('over_13_coders')
    if len(items) > 40:
        ctx.feature('over_40_items')
    if max(len(s) for cs in items for s in cs.values()) > 300:
        ctx.feature('over_300_units')
    if 'strings' in case and len(set(t for cs in items for s in cs.values() for p in s for t in p)) > 16:
        ctx.feature('over_16_types')
    if len(set(len(list(cs.values())[0]) for cs in items)) > 1:
        ctx.feature('different_lengths')
    if 'strings' in case and len(set(t for cs in items for s in cs.values() for p in s for t in p)) > 1:
        ctx.feature('several_types')
    complete = all(s == list(cs.values())[0] for cs in items for s in cs.values())
    if complete:
        ctx.feature('complete_agreement')
    else:
        ctx.nontrivial()
    return complete
