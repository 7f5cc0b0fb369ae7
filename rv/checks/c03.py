"""C03: values do not depend on the encoding."""
from rv import gen, oracle
from rv.core import api, short
from rv.checks import common

INTERPRETERS = 'both'
SHARING = True
EXPLICIT = True
METRICS = ['boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix',
           'pk', 'window_diff']
AGREEMENT = ['actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear']
REQUIRED = ['pair', 'dataset', 'two_datasets', 'agreement', 'bare_integer', 'lamprier', 'single_unit', 'single_unit_item', 'window_size_given', 'user_weights', 'compare_given'] + \
    ['format_' + f for f in ('mass', 'position', 'nltk', 'sets')] + ['labels_' + l for l in gen.LABELS] + \
    ['metric_' + m for m in METRICS + AGREEMENT]
REQUIRED += ['explicit_' + o for o in ['boundary_types', 'fnc_compare', 'fnc_round', 'lamprier_et_al_2007_fix', 'n_t', 'one_minus', 'permuted', 'return_parts', 'weight', 'window_size']]
RULE = ('random pairs and datasets; each metric evaluated on the tuple-of-masses encoding and on several other encodings '
        '(formats, containers, label kinds, fresh label objects; both sides encoded alike or with different labels); '
        'results must agree; non-trivial: the compared segmentations differ')
ASSUMPTIONS = ['position labels are distinct per segment and neither None nor NaN']


def options(rng, metric, n):
    o = {}
    if metric in ('pk', 'window_diff'):
        if rng.random() < 0.5:
            o['window_size'] = rng.choice([1, 2, 3, 5, 9, 20, 60, 255, 256, 257, 300, n - 1, n, n + 2]) or 1
        if rng.random() < 0.3:
            o['round'] = rng.choice(['floor', 'ceil', 'plus3', 'floor_object', 'ceil_partial', 'half_up_float', 'half_up_decimal'])
        if metric == 'window_diff' and rng.random() < 0.5:
            o['lamprier_et_al_2007_fix'] = True
        if rng.random() < 0.3:
            o['one_minus'] = True
        if rng.random() < 0.3:
            o['return_parts'] = True
    else:
        if rng.random() < 0.5:
            o['n_t'] = gen.n_t(rng, n)
        if metric in ('boundary_similarity', 'segmentation_similarity'):
            if rng.random() < 0.3:
                o['one_minus'] = True
            if rng.random() < 0.3:
                o['return_parts'] = True
        if metric in AGREEMENT and rng.random() < 0.3:
            o['one_minus'] = True
        if metric in AGREEMENT and rng.random() < 0.4:
            o['compare'] = rng.choice(['boundary_similarity', 'segmentation_similarity'])
        if rng.random() < 0.4:
            w = gen.weights(rng)
            if w is not None:
                o['w'] = w
    return o


def cases(ctx):
    rng = ctx.rng
    for k, (a, b) in enumerate(common.share(ctx, [([1], [1])] * 60 + list(common.exhaustive_mass_pairs(4 if ctx.quick() else 6)))):
        m = METRICS[k % 6]
        yield {'k': 'pair', 'metric': m, 'a': a, 'b': b, 'o': options(rng, m, sum(a)), 'es': encs(rng, m)}
    for _ in range(ctx.scale(900, 20000)):
        m = rng.choice(METRICS)
        n = gen.pick_n(rng) if m not in ('window_diff',) else gen.pick_n(rng, big=False)
        if rng.random() < 0.06 and m in ('pk', 'window_diff'):
            n = rng.randint(258, 420)
        a, b = gen.mass_pair(rng, n)
        yield {'k': 'pair', 'metric': m, 'a': a, 'b': b, 'o': options(rng, m, n), 'es': encs(rng, m)}
    for _ in range(ctx.scale(60, 1500)):
        n = rng.randint(2, 40)
        m = rng.choice(METRICS)
        yield {'k': 'int', 'metric': m, 'n': n, 'b': gen.masses(rng, n), 'o': options(rng, m, n),
               'side': rng.choice(['hyp', 'ref', 'both']), 'kw': rng.random() < 0.5}
    for _ in range(ctx.scale(110, 2400)):
        m = rng.choice(METRICS + AGREEMENT)
        full = m in AGREEMENT
        ds = gen.dataset(rng, full=full, nmax=25, min_units=2)
        if not full and rng.random() < 0.2:
            # an item of a single unit
            ds['one'] = dict((c, [1]) for c in ds[sorted(ds)[0]])
        if full and not gen.agreeable(ds):
            continue
        two = (not full) and rng.random() < 0.4
        case = {'k': 'ds', 'metric': m, 'ds': ds, 'o': options(rng, m, 12), 'es': encs(rng, m)[:3],
                'dict': rng.random() < 0.3}
        if m in ('pk', 'window_diff') and 'window_size' in case['o']:
            case['o']['window_size'] = rng.randint(1, 12)
        if two:
            case['ds2'] = dict((it, dict(('h' + str(i), gen.jitter(rng, x)) for i, x in enumerate(cs.values())))
                               for it, cs in ds.items())
        yield case


def encs(rng, metric):
    formats = ('mass', 'position', 'nltk') if metric in ('pk', 'window_diff') else ('mass', 'position', 'nltk', 'sets')
    out = []
    for f in formats:
        e = gen.encoding(rng, (f,))
        out.append(e)
    e = gen.encoding(rng, ('position',))
    e['other'] = rng.choice(gen.LABELS)        # the reference labelled differently
    out.append(e)
    rng.shuffle(out)
    return out


def lib_options(o):
    o = dict(o)
    r = o.pop('round', None)
    if r:
        o['fnc_round'] = oracle.library_round(r)
    w = o.pop('w', None)
    if w:
        o['weight'] = oracle.Weights(w).library(api())
    c = o.pop('compare', None)
    if c:
        o['fnc_compare'] = api()[c]
    return o


def note(ctx, case, e):
    ctx.feature('format_' + e['f'])
    if 'labels' in e:
        ctx.feature('labels_' + e['labels'])
    if 'other' in e:
        ctx.feature('labels_' + e['other'])


def run(case, ctx):
    A = api()
    fn = A[case['metric']]
    ctx.feature('metric_' + case['metric'])
    o = lib_options(case['o'])
    if case['o'].get('lamprier_et_al_2007_fix'):
        ctx.feature('lamprier')
    if 'window_size' in case['o']:
        ctx.feature('window_size_given')
    if 'w' in case['o']:
        ctx.feature('user_weights')
    if 'compare' in case['o']:
        ctx.feature('compare_given')
    base = {'f': 'mass', 'c': 'tuple'}
    if case['k'] == 'pair':
        ctx.feature('pair')
        if case['a'] == [1]:
            ctx.feature('single_unit')
        if case['a'] != case['b']:
            ctx.nontrivial()
        want = common.canonical(ctx.call(fn, tuple(case['a']), tuple(case['b']), **o))
        for e in case['es']:
            note(ctx, case, e)
            eb = dict(e, labels=e['other']) if 'other' in e else e
            x, y = gen.encode(case['a'], e), gen.encode(case['b'], eb)
            got = ctx.call(fn, x, y, boundary_format=gen.boundary_format(A, e), **o)
            judge(ctx, case, e, got, want, x, y)
    elif case['k'] == 'int':
        ctx.feature('bare_integer')
        n, b = case['n'], case['b']
        side = case['side']
        x, y = (n,), tuple(b)
        if side == 'ref':
            x, y = tuple(b), (n,)
        elif side == 'both':
            y = (n,)
        want = common.canonical(ctx.call(fn, x, y, **o))
        x2 = n if side in ('hyp', 'both') else x
        y2 = n if side in ('ref', 'both') else y
        if case['kw']:
            got = ctx.call(fn, hypothesis=x2, reference=y2, **o)
        else:
            got = ctx.call(fn, x2, y2, **o)
        judge(ctx, case, {'f': 'bare integer'}, got, want, x2, y2)
        if len(b) > 1:
            ctx.nontrivial()
    else:
        agreement = case['metric'] in AGREEMENT
        if 'one' in case['ds']:
            ctx.feature('single_unit_item')
        ctx.feature('agreement' if agreement else 'two_datasets' if 'ds2' in case else 'dataset')
        if any(x != y for cs in case['ds'].values() for x in cs.values() for y in cs.values()):
            ctx.nontrivial()

        def value(e, as_dict):
            args = [gen.encode_dataset(A, case[k], e, as_dict) for k in ('ds', 'ds2') if k in case]
            oo = dict(o)
            if as_dict:
                oo['boundary_format'] = gen.boundary_format(A, e)
            return ctx.call(fn, *args, **oo)
        want = common.canonical(value(base, False))
        for e in case['es']:
            note(ctx, case, e)
            as_dict = agreement and case['dict']
            judge(ctx, case, e, value(e, as_dict), want, case['ds'], case.get('ds2'))


def judge(ctx, case, e, got, want, x, y):
    got = common.canonical(got)
    ctx.expect(common.same(got, want), '%s is %s for %s, but %s for masses' % (
        case['metric'], short(got, 200), e, short(want, 200)), x=x, y=y, options=case['o'])
