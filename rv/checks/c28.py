"""C28: invalid comparisons are refused, never answered; valid ones afterwards are unaffected."""
from rv import gen, oracle
from rv.core import api, short
from rv.checks import common
from rv.checks.c03 import lib_options

INTERPRETERS = 'both'
EXPLICIT = True
REQUIRED = ['length_differs', 'length_differs_by_1', 'length_same_boundaries', 'dataset_length_differs', 'two_datasets_length_differs',
            'unsupported_sets_window', 'unknown_format', 'no_arguments', 'one_keyword', 'three_arguments', 'dataset_formats_differ',
            'averaging_unknown', 'averaging_unknown_empty', 'averaging_unknown_dict', 'agreement_incomplete',
            'agreement_single_coder', 'agreement_length_differs', 'agreement_different_coders', 'valid_after_refusal',
            'format_mass', 'format_position', 'format_nltk', 'format_sets', 'not_a_collection', 'unsupported_identical', 'unsupported_same_object', 'unsupported_boundary_free',
            'single_unit', 'no_unit', 'dataset_unknown_format', 'agreement_unknown_format', 'user_weights', 'over_256_units', 'length_differs_by_256',
            'other_call_after_refusal', 'explicit_permuted', 'explicit_one_minus', 'explicit_fnc_round', 'explicit_weight']
RULE = ('random invalid calls of every listed kind over all metrics, formats and options, each followed by a valid call whose '
        'result is compared with the one obtained before; non-trivial: a refusal was observed')
METRICS = ['boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix', 'pk', 'window_diff']
WINDOW = ('pk', 'window_diff')
COEFFS = ['actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear']
KINDS = ['dsunknown', 'empty', 'length', 'length', 'length', 'dslength', 'dslength2', 'sets_window', 'format', 'arguments', 'dsformat', 'average',
         'agree_missing', 'agree_single', 'agree_length', 'agree_coders', 'window_size']


def options(rng, metric):
    o = {}
    if rng.random() < 0.4 and metric not in ('boundary_statistics', 'boundary_confusion_matrix'):
        o[rng.choice(['one_minus', 'return_parts'])] = True
    if metric in WINDOW:
        if rng.random() < 0.5:
            o['window_size'] = rng.choice([1, 2, 3, 9, 40])
        if rng.random() < 0.2:
            o['round'] = rng.choice(['floor', 'ceil', 'plus3'])
        if metric == 'window_diff' and rng.random() < 0.4:
            o['lamprier_et_al_2007_fix'] = True
    else:
        if rng.random() < 0.4:
            o['n_t'] = rng.choice([1, 2, 3, 9])
        if rng.random() < 0.3:
            w = gen.weights(rng)
            if w is not None:
                o['w'] = w
    return o


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.scale(1400, 30000)):
        kind = KINDS[i % len(KINDS)]
        metric = rng.choice(METRICS)
        a, b = gen.mass_pair(rng, big=False)
        c = {'k': kind, 'm': metric, 'a': a, 'b': b, 'o': options(rng, metric)}
        if kind == 'length':
            how = rng.choice(['plus1', 'plus1', 'drop', 'other', 'tail', 'same_count', 'one', 'long'])
            b = list(a) if rng.random() < 0.5 else b
            if how == 'one':
                b = [1]
                if a == [1]:
                    a = [2]
            elif how == 'long':
                more = rng.choice([1, 1, 255, 256, 256, 512, 1000])
                a = a + [rng.randint(200, 400)]
                b = b + [sum(a) - sum(b) + more]
            elif how == 'plus1':
                j = rng.randrange(len(b))
                b[j] += 1
            elif how == 'drop' and len(b) > 1:
                del b[rng.randrange(len(b))]
            elif how == 'tail':
                b = b + [rng.randint(1, 3)]
            elif how == 'same_count':
                b = [x + rng.randint(0, 2) for x in b]
                b[-1] += 1
            else:
                b = gen.masses(rng, sum(a) + rng.randint(1, 30))
            if sum(a) == sum(b):
                b = b[:-1] + [b[-1] + 1]
            c.update(a=a, b=b, e=gen.encoding(rng, ('mass', 'position', 'nltk') if metric in WINDOW else
                                              ('mass', 'position', 'nltk', 'sets')), kw=rng.random() < 0.3, swap=rng.random() < 0.5)
        elif kind in ('dslength', 'dslength2', 'agree_missing', 'agree_single', 'agree_length', 'agree_coders', 'dsformat', 'dsunknown'):
            ds = gen.dataset(rng, nmax=16, coders=rng.choice([2, 3]), many=False)
            c.update(ds=ds, e=gen.encoding(rng, ('mass', 'position', 'nltk') if kind.startswith('ds') and metric in WINDOW else
                                           ('mass', 'position', 'nltk', 'sets')), coeff=rng.choice(COEFFS), pick=rng.random(),
                     plain=rng.random() < 0.3, comp=rng.choice(['B', 'S']))
        elif kind == 'sets_window':
            c.update(same=rng.choice(['', '', 'equal', 'object']))
            if rng.random() < 0.15:
                c.update(a=[sum(a)], b=[sum(a)])
            if rng.random() < 0.3:
                c['o'] = {}
        elif kind == 'format':
            c.update(same=rng.random() < 0.3, f=rng.choice(['', 'masses', 'Mass', None, 7, 'set', 'unknown', [], 'positions']))
        elif kind == 'arguments':
            c.update(how=rng.choice(['none', 'hyp', 'ref', 'three', 'four', 'options_only']))
        elif kind == 'average':
            c.update(v=rng.choice(['micro', 'macro', None, 2, -1, 'x', 10]), fn=rng.choice(['precision', 'recall', 'fmeasure']),
                     what=rng.choice(['matrix', 'matrix', 'empty', 'dict']))
        elif kind == 'window_size':
            c.update(x=rng.choice([5, 0, None, 2.5]))
        elif kind == 'empty':
            c.update(e=gen.encoding(rng, ('mass', 'position')), swap=rng.random() < 0.5, kw=rng.random() < 0.3)
        c['then'] = rng.choice(METRICS)
        yield c


def refuse(ctx, A, fn, args, kw, what, only=True, **info):
    if ctx.explicit is not None and kw:
        kw = ctx.spelled_out(fn.__name__, args, kw)
    st, v = ctx.outcome(fn, *args, **kw)
    ctx.expect(st == 'error', '%s: %s answered %s' % (what, fn.__name__, short(v)), options=kw, **info)
    if only:
        ctx.expect(isinstance(v, A.SegmentationMetricError),
                   '%s: %s raised %s (%s), not the metric error' % (what, fn.__name__, type(v).__name__, short(str(v), 200)),
                   options=kw, **info)
    ctx.events['refusal'] += 1
    ctx.nontrivial()


def run(case, ctx):
    A = api()
    fn = A[case['m']]
    k = case['k']
    a, b = case['a'], case['b']
    # a valid comparison before
    va, vb = [2, 3, 6], [2, 2, 7]
    options_ = lib_options(case['o'])
    if 'w' in case['o']:
        ctx.feature('user_weights')
    other = A[case['then']]
    before = common.canonical(ctx.call(fn, va, vb, **options_)), common.canonical(ctx.call(other, va, vb))
    o = dict(options_)
    if k == 'length':
        e = case['e']
        x, y = gen.encode(a, e), gen.encode(b, e)
        if case['swap']:
            x, y = y, x
        o['boundary_format'] = gen.boundary_format(A, e)
        ctx.feature('length_differs', 'format_' + e['f'])
        if 1 in (sum(a), sum(b)):
            ctx.feature('single_unit')
        if max(sum(a), sum(b)) > 256:
            ctx.feature('over_256_units')
        if abs(sum(a) - sum(b)) % 256 == 0:
            ctx.feature('length_differs_by_256')
        if abs(sum(a) - sum(b)) == 1:
            ctx.feature('length_differs_by_1')
        if len(a) == len(b):
            ctx.feature('length_same_boundaries')
        if case['kw']:
            refuse(ctx, A, fn, (), dict(o, hypothesis=x, reference=y), 'segmentations of different length', a=x, b=y)
        else:
            refuse(ctx, A, fn, (x, y), o, 'segmentations of different length', a=x, b=y)
    elif k in ('dslength', 'dslength2', 'agree_length'):
        data = dict((it, dict((c, list(m)) for c, m in cs.items())) for it, cs in case['ds'].items())
        it = sorted(data)[int(case['pick'] * len(data))]
        c = sorted(data[it])[int(case['pick'] * 7919) % len(data[it])]
        good = gen.encode_dataset(A, case['ds'], case['e'])
        data[it][c][-1] += 1 + int(case['pick'] * 10) % 3
        ds = gen.encode_dataset(A, data, case['e'])
        if k == 'dslength':
            ctx.feature('dataset_length_differs')
            refuse(ctx, A, fn, (ds,), o, 'an item coded with different lengths', dataset=data)
        elif k == 'dslength2':
            ctx.feature('two_datasets_length_differs')
            pair = (good, ds) if case['plain'] else (ds, good)
            refuse(ctx, A, fn, pair, o, 'an item coded with different lengths', dataset=data)
        else:
            ctx.feature('agreement_length_differs')
            refuse(ctx, A, A[case['coeff']], (ds,), compare(A, case), 'an item coded with different lengths', only=False, dataset=data)
    elif k == 'sets_window':
        m = 'pk' if case['m'] != 'window_diff' else 'window_diff'
        ctx.feature('unsupported_sets_window')
        o = dict((q, v) for q, v in o.items() if q not in ('n_t', 'lamprier_et_al_2007_fix', 'weight'))
        x, y = oracle.masses_to_string(a), oracle.masses_to_string(b)
        if case['same'] == 'equal':
            ctx.feature('unsupported_identical')
            y = oracle.masses_to_string(a)
        elif case['same'] == 'object':
            ctx.feature('unsupported_same_object')
            y = x
        if not any(x) and not any(y):
            ctx.feature('unsupported_boundary_free')
        refuse(ctx, A, A[m], (x, y), dict(o, boundary_format=A.BoundaryFormat.sets), 'boundary sets', a=a, b=b)
        data = A.Dataset({'i': {'c': tuple(x), 'd': tuple(y)}}, boundary_format=A.BoundaryFormat.sets)
        refuse(ctx, A, A[m], (data,), o, 'a dataset of boundary sets', a=a, b=b)
    elif k == 'format':
        ctx.feature('unknown_format')
        # a value that cannot even be looked up may fail in the lookup
        refuse(ctx, A, fn, (a, a if case['same'] else b), dict(o, boundary_format=case['f']), 'unknown format %r' % (case['f'],),
               only=case['f'] != [], a=a, b=b)
    elif k == 'empty':
        # nothing at all against a text
        ctx.feature('no_unit')
        x, y = gen.encode([], case['e']), gen.encode(b, case['e'])
        if case['swap']:
            x, y = y, x
        o['boundary_format'] = gen.boundary_format(A, case['e'])
        if case['kw']:
            refuse(ctx, A, fn, (), dict(o, hypothesis=x, reference=y), 'nothing against a segmentation', a=x, b=y)
        else:
            refuse(ctx, A, fn, (x, y), o, 'nothing against a segmentation', a=x, b=y)
    elif k == 'dsunknown':
        ctx.feature('dataset_unknown_format')
        ds = gen.encode_dataset(A, case['ds'], {'f': 'mass', 'c': 'tuple'})
        ds.boundary_format = ('masses', 'unknown', None, '', 'sets, mass')[int(case['pick'] * 5)]
        refuse(ctx, A, fn, (ds,), o, 'a dataset of an unknown format', dataset=case['ds'])
        refuse(ctx, A, fn, (ds, ds), o, 'datasets of an unknown format', dataset=case['ds'])
        ctx.feature('agreement_unknown_format')
        refuse(ctx, A, A[case['coeff']], (ds,), compare(A, case), 'a dataset of an unknown format', only=False, dataset=case['ds'])
    elif k == 'arguments':
        how = case['how']
        if how == 'none':
            ctx.feature('no_arguments')
            refuse(ctx, A, fn, (), {}, 'no arguments')
        elif how == 'options_only':
            ctx.feature('no_arguments')
            refuse(ctx, A, fn, (), o, 'options only')
        elif how in ('hyp', 'ref'):
            ctx.feature('one_keyword')
            refuse(ctx, A, fn, (), dict(o, **{'hypothesis' if how == 'hyp' else 'reference': a}), 'only one of the pair')
        else:
            ctx.feature('three_arguments')
            refuse(ctx, A, fn, (a, b, a) if how == 'three' else (a, b, a, b), o, 'too many arguments')
    elif k == 'dsformat':
        ctx.feature('dataset_formats_differ')
        x = gen.encode_dataset(A, case['ds'], {'f': 'mass', 'c': 'tuple'})
        y = gen.encode_dataset(A, case['ds'], {'f': 'position', 'c': 'tuple'})
        z = gen.encode_dataset(A, case['ds'], {'f': 'sets', 'c': 'tuple', 'set': 'set'})
        w = gen.encode_dataset(A, case['ds'], {'f': 'nltk', 'c': 'tuple'})
        for p, q in ((x, y), (y, x), (x, z), (z, y), (w, x), (z, w)):
            refuse(ctx, A, fn, (p, q), o, 'datasets of different formats', dataset=case['ds'])
    elif k == 'average':
        m = A.ConfusionMatrix()
        ctx.feature('averaging_unknown')
        if case['what'] == 'empty':
            ctx.feature('averaging_unknown_empty')
        else:
            for i in range(3):
                m[i][(i * 7) % 3 + i % 2] += i + 1
        if case['what'] == 'dict':
            ctx.feature('averaging_unknown_dict')
            m = {'x': m, 'y': A.ConfusionMatrix()}
        refuse(ctx, A, A[case['fn']], (m,), {'version': case['v']}, 'unknown averaging %r' % (case['v'],))
        mm = A.ConfusionMatrix()
        mm['p']['p'] += 2
        mm['p']['q'] += 1
        common.must_close(ctx, ctx.call(A.precision, mm, 'p'), oracle.Fraction(2, 3), 'precision after a refusal')
    elif k == 'agree_missing':
        ctx.feature('agreement_incomplete')
        data = dict((it, dict((c, list(m)) for c, m in cs.items())) for it, cs in case['ds'].items())
        it = sorted(data)[int(case['pick'] * len(data))]
        if len(data) == 1:
            data['another'] = dict((c, list(m)) for c, m in data[it].items())
        del data[it][sorted(data[it])[0]]
        refuse(ctx, A, A[case['coeff']], (gen.encode_dataset(A, data, case['e'], as_dict=case['plain'] and case['e']['f'] == 'mass'),),
               compare(A, case), 'an incompletely coded dataset', only=False, dataset=data)
    elif k == 'agree_coders':
        # the same number of coders everywhere, but not the same coders
        ctx.feature('agreement_different_coders')
        data = dict((it, dict((c, list(m)) for c, m in cs.items())) for it, cs in case['ds'].items())
        it = sorted(data)[int(case['pick'] * len(data))]
        if len(data) == 1:
            data['another'] = dict((c, list(m)) for c, m in data[it].items())
        c = sorted(data[it])[0]
        data[it]['somebody else'] = data[it].pop(c)
        refuse(ctx, A, A[case['coeff']], (gen.encode_dataset(A, data, case['e'], as_dict=case['plain'] and case['e']['f'] == 'mass'),),
               compare(A, case), 'items coded by different coders', only=False, dataset=data)
    elif k == 'agree_single':
        ctx.feature('agreement_single_coder')
        data = dict((it, {'only': list(cs[sorted(cs)[0]])}) for it, cs in case['ds'].items())
        refuse(ctx, A, A[case['coeff']], (gen.encode_dataset(A, data, case['e'], as_dict=case['plain'] and case['e']['f'] == 'mass'),),
               compare(A, case), 'a single-coder dataset', only=False, dataset=data)
    elif k == 'window_size':
        ctx.feature('not_a_collection')
        refuse(ctx, A, A.compute_window_size, (case['x'],), {}, 'window size of %r' % (case['x'],))
        refuse(ctx, A, A.compute_window_size, ({'i': {'c': case['x']}},), {}, 'window size of a collection of %r' % (case['x'],))
        ctx.expect(ctx.call(A.compute_window_size, [4, 8]) == 3, 'window size after a refusal')
    # valid calls afterwards are unaffected
    ctx.feature('valid_after_refusal')
    if other is not fn:
        ctx.feature('other_call_after_refusal')
    after = common.canonical(ctx.call(fn, va, vb, **options_)), common.canonical(ctx.call(other, va, vb))
    ctx.expect(common.same(before, after), '%s and %s gave %s before a refused call and %s after it' % (
        fn.__name__, other.__name__, short(before), short(after)), case=case)
    if k.startswith('agree') and gen.agreeable(case['ds']):
        st, v = ctx.outcome(A.actual_agreement_linear, gen.encode_dataset(A, case['ds'], case['e']))
        if st == 'ok':
            want = oracle.agreement(dict((it, dict((c, oracle.masses_to_string(m)) for c, m in cs.items()))
                                         for it, cs in case['ds'].items()))
            common.must_close(ctx, v, want['A'], 'actual agreement after a refusal', dataset=case['ds'])


def compare(A, case):
    if case['comp'] == 'S':
        return {'fnc_compare': A.segmentation_similarity}
    return {}
