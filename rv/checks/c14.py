"""C14: window sizes."""
import decimal
from rv import gen, kinds, oracle
from rv.core import api, short
from rv.checks import common

INTERPRETERS = 'both'
SHARING = True
REQUIRED = ['single', 'nested', 'deeply_nested', 'dataset', 'format_position', 'format_mass', 'half_up', 'half_down',
            'clamped', 'over_10_levels', 'rounding_given', 'reordered', 'repeated', 'used_as_default', 'format_of_the_dataset', 'odd_labels', 'over_256', 'over_float_precision', 'item_without_codings', 'many_segments_next_to_a_half', 'rounding_refuses'] + ['mapping_' + k for k in kinds.MAPPINGS]
RULE = ('random segmentations, datasets and arbitrarily nested dictionaries of them, as masses and positions, several '
        'rounding functions; the size is compared with the exact mean, recomputed after reordering and renesting, and '
        'observed as default k of Pk; non-trivial: more than one segment')
ASSUMPTIONS = ['the format of positions outside a Dataset is given explicitly']

ERRORS = [ZeroDivisionError, decimal.InvalidOperation, OverflowError, ValueError, TypeError, KeyError, AttributeError, StopIteration, RuntimeError]


def cases(ctx):
    rng = ctx.rng
    sizes = range(1, 8) if ctx.quick() else range(1, 12)
    for n in sizes:
        for m in common.share(ctx, gen.compositions(n)):
            yield {'ds': {'i': {'c': m}}, 'shape': 'single', 'e': gen.encoding(rng, ('mass', 'position')),
                   'r': rng.choice(['even', 'even', 'floor', 'ceil', 'plus3', 'floor_object', 'ceil_partial', 'half_up_float', 'half_up_decimal', 'const1'])}
    for _ in range(ctx.scale(2600, 60000)):
        if rng.random() < 0.4:
            n = gen.pick_n(rng)
            ds = {'i': {'c': gen.masses(rng, n)}}
            shape = 'single'
        else:
            ds = {}
            for i in range(rng.choice([1, 1, 2, 3, 5])):
                ds['i%d' % i] = dict(('c%d' % j, gen.masses(rng, rng.choice([1, 2, 3, rng.randint(2, 60)])))
                                     for j in range(rng.choice([1, 2, 3, 4])))
            shape = rng.choice(['dataset', 'dict', 'item', 'deep', 'uneven'])
            if rng.random() < 0.3:
                # several coders of one mind
                for cs in ds.values():
                    for c in cs:
                        if rng.random() < 0.6:
                            cs[c] = list(rng.choice(list(rng.choice(list(ds.values())).values())))
            if rng.random() < 0.15:
                # an item nobody has coded
                hollow = list(ds.items())
                hollow.insert(rng.randint(0, len(hollow)), ('hollow', {}))
                ds = dict(hollow)
        yield {'ds': ds, 'map': [rng.choice(kinds.MAPPINGS) for _ in range(2)] if rng.random() < 0.3 else ['dict'], 'shape': shape, **({'fail': rng.randrange(len(ERRORS))} if rng.random() < 0.1 else {}), 'implied': rng.random() < 0.5, 'extra': rng.choice([0, 0, 1, 4, 9, 40]), 'e': gen.encoding(rng, ('mass', 'position')),
               'r': rng.choice(['even', 'even', 'even', 'floor', 'ceil', 'plus3', 'floor_object', 'ceil_partial', 'half_up_float', 'half_up_decimal', 'const7', 'const1'])}
    for _ in range(ctx.scale(200, 4000)):
        # mean lengths of exactly an odd number: halves
        odd = rng.choice([1, 3, 5, 7, 9, 11, 13, 15, 101])
        k = rng.randint(1, 6)
        m = [odd] * k
        for _ in range(rng.randint(0, 3)):
            i, j = rng.randrange(k), rng.randrange(k)
            d = rng.randint(0, m[i] - 1)
            m[i] -= d
            m[j] += d
        yield {'ds': {'i': {'c': m}}, 'shape': 'single', 'e': gen.encoding(rng, ('mass', 'position')), 'r': 'even'}


    for _ in range(ctx.scale(60, 1500)):
        # very many segments whose mean length is next to, but not, an odd number
        odd = rng.choice([3, 5, 7, 9, 11])
        k = rng.choice([50, 150, 300, 700, 1500])
        m = [odd] * k
        for _ in range(rng.randint(0, 20)):
            i, j = rng.randrange(k), rng.randrange(k)
            d = rng.randint(0, m[i] - 1)
            m[i] -= d
            m[j] += d
        m[rng.randrange(k)] += 1
        if rng.random() < 0.5:
            i = rng.choice([x for x in range(k) if m[x] > 2])
            m[i] -= 2
        if min(m) < 1:
            continue
        yield {'ds': {'i': {'c': m}}, 'shape': rng.choice(['single', 'dict', 'dataset']), 'e': gen.encoding(rng, ('mass', 'position')), 'r': 'even', 'near': 1}

    for _ in range(ctx.scale(60, 1500)):
        # masses beyond the precision of floats (nothing is expanded for masses)
        big = 10 ** rng.randint(3, 19)
        ds = dict(('i%d' % i, {'c': [rng.randint(1, big) for _ in range(rng.randint(1, 6))]}) for i in range(rng.randint(1, 3)))
        if rng.random() < 0.5:
            ds = {'i0': {'c': [2 ** rng.randint(53, 62) + 2 * rng.randint(0, 9)]}}
        yield {'ds': ds, 'shape': rng.choice(['single', 'dict', 'deep']), 'e': {'f': 'mass', 'c': 'tuple'},
               'r': rng.choice(['even', 'even', 'floor', 'ceil'])}


def shape(case, A, order=1):
    out = plain_shape(case, A, order)
    if case['shape'] in ('single', 'dataset'):
        return out
    return kinds.nested(case.get('map', ['dict']), out)


def plain_shape(case, A, order):
    e = case['e']
    items = list(case['ds'].items())
    if order < 0:
        items.reverse()
    data = {}
    for it, cs in items:
        cl = list(cs.items())
        if order < 0:
            cl.reverse()
        data[it] = dict((c, gen.encode(m, e)) for c, m in cl)
    s = case['shape']
    if s == 'single':
        return list(list(data.values())[0].values())[0]
    if s == 'dataset':
        return A.Dataset(data, boundary_format=gen.boundary_format(A, e))
    if s == 'item':
        flat = {}
        for it, cs in data.items():
            for c, m in cs.items():
                flat[it + c] = m
        return flat
    if s == 'deep':
        out = {'root': {'x': {'y': data}}}
        for i in range(case.get('extra', 0)):
            out = {'level%d' % i: out}
        return out
    if s == 'uneven':
        out, first = {}, True
        for it, cs in data.items():
            out[it] = cs if first else {'sub': cs}
            first = False
        return out
    return data


def run(case, ctx):
    A = api()
    e = case['e']
    if case['shape'] == 'single':
        case = dict(case, ds=dict(list(case['ds'].items())[:1]))
    all_masses = [m for cs in case['ds'].values() for x in cs.values() for m in x]
    k = oracle.window_size(all_masses, case['r'])
    if len(all_masses) > 1:
        ctx.nontrivial()
    s = case['shape']
    ctx.feature({'single': 'single', 'dataset': 'dataset', 'deep': 'deeply_nested'}.get(s, 'nested'), 'format_' + e['f'])
    if s == 'deep' and case.get('extra', 0) > 8:
        ctx.feature('over_10_levels')
    if e.get('labels', 'std') != 'std':
        ctx.feature('odd_labels')
    if case['r'] != 'even':
        ctx.feature('rounding_given')
    from fractions import Fraction
    half = Fraction(sum(all_masses), len(all_masses)) / 2
    if case['r'] == 'even' and half.denominator == 2:
        ctx.feature('half_down' if k < half else 'half_up')
    if oracle.apply_round(case['r'], half) < 2:
        ctx.feature('clamped')
    if sum(all_masses) > 256:
        ctx.feature('over_256')
    if sum(all_masses) > 2 ** 53:
        ctx.feature('over_float_precision')
    opts = {}
    if e['f'] == 'position' and case.get('implied') and s == 'dataset':
        ctx.feature('format_of_the_dataset')
    elif e['f'] == 'position':
        opts['boundary_format'] = A.BoundaryFormat.position
    if case['r'] != 'even':
        opts['fnc_round'] = oracle.library_round(case['r'])
    if s not in ('single', 'dataset'):
        ctx.feature(*['mapping_' + k for k in case.get('map', ['dict'])])
    if case.get('near'):
        ctx.feature('many_segments_next_to_a_half')
    if not all(case['ds'].values()):
        ctx.feature('item_without_codings')
    ref = shape(case, A)
    info = dict(reference=ref, options=case)

    def judge(got, what):
        ctx.expect(isinstance(got, int) and not isinstance(got, bool) and got == k,
                   '%s is %r, expected %r' % (what, got, k), **info)
    judge(ctx.call(A.compute_window_size, ref, **opts), 'window size')
    if 'fail' in case:
        # the rounding function refuses: its error is the caller's
        refusal = ERRORS[case['fail']]('the user refuses to round')
        ctx.feature('rounding_refuses')

        def refuse(x):
            raise refusal
        st, v = ctx.outcome(A.compute_window_size, ref, **dict(opts, fnc_round=refuse))
        ctx.expect(st == 'error' and v is refusal, 'a rounding function that raises %r gives the window size %s' % (refusal, short(v)), **info)
    ctx.feature('repeated')
    judge(ctx.call(A.compute_window_size, ref, **opts), 'window size asked again')
    if s != 'single':
        ctx.feature('reordered')
        judge(ctx.call(A.compute_window_size, shape(case, A, -1), **opts), 'window size after reordering')
        if e['f'] == 'position':
            opts['boundary_format'] = A.BoundaryFormat.position
        other = dict(case, shape='deep' if s != 'deep' else 'item')
        judge(ctx.call(A.compute_window_size, shape(other, A), **opts), 'window size after renesting')
    else:
        m = list(list(case['ds'].values())[0].values())[0]
        # either format gives the same size
        o = dict(opts)
        o.pop('boundary_format', None)
        judge(ctx.call(A.compute_window_size, tuple(m), **o), 'window size from masses')
        # and it is the default k of the window metrics, from the reference alone
        if 2 <= sum(m) <= 300:
            ctx.feature('used_as_default')
            hyp = [sum(m)]
            diff, win = oracle.pk(hyp, m, k)
            parts = ctx.call(A.pk, tuple(hyp), tuple(m), return_parts=True, **o)
            ctx.expect(tuple(parts) == (diff, win), 'Pk with default window has parts %r, expected %r' % (
                tuple(parts), (diff, win)), **info)
            if sum(m) <= 120:
                d2, den, _ = oracle.window_diff(hyp, m, k)
                parts = ctx.call(A.window_diff, tuple(hyp), tuple(m), return_parts=True, **o)
                ctx.expect(parts[0] == d2 and (parts[1] == den or den <= 0 and parts[1] <= 0),
                           'WindowDiff with default window has parts %r, expected %r' % (tuple(parts), (d2, den)), **info)
