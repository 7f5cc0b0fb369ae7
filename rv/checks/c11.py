"""C11: precision, recall, F-measure against their definitions; asking changes nothing."""
from decimal import Decimal
from fractions import Fraction
from rv import gen, kinds, oracle
from rv.core import api, short
from rv.checks import common

INTERPRETERS = 'both'
REQUIRED = ['macro', 'micro', 'one_class', 'absent_class', 'beta_zero', 'beta_fraction', 'beta_many_digits', 'decimal_counts', 'float_counts', 'from_segmentations_with_float_weights', 'dictionary',
            'empty_matrix', 'zero_diagonal', 'from_segmentations', 'after_read', 'over_5_classes', 'over_20_classes', 'over_10_matrices', 'subclass'] + ['mapping_' + k for k in kinds.MAPPINGS]
RULE = ('random matrices (integer, decimal and float counts, labels of several types, empty rows, stored zeros, absent classes), '
        'queried in random order and repeatedly, single and in dictionaries, also matrices produced from segmentations; '
        'each answer compared with the exact definition on a shadow copy; non-trivial: some diagonal and some '
        'off-diagonal count')
ASSUMPTIONS = ['None cannot be asked for as a single class (it means "average"); it does occur as a class']
LABELS = ['p', 'n', 'x', 1, 2, 3, 0, None, '', 300, -5, u'\u00e9', 2.5, 'long label', 7, 8] + ['k%d' % i for i in range(20)] + list(range(400, 420))


def cases(ctx):
    rng = ctx.rng
    for _ in range(ctx.scale(1300, 30000)):
        n = rng.choice([1, 1, 1, 2, 3]) if rng.random() < 0.97 else rng.randint(4, 40)
        ms = []
        for _ in range(n):
            if rng.random() < (0.15 if n < 4 else 0.03):
                a, b = gen.string_pair(rng, rng.randint(1, 20))
                ms.append({'segs': [a, b], 'n_t': gen.n_t(rng), 'half': rng.random() < 0.3})
                continue
            labels = rng.sample(range(16), rng.choice([0, 1, 2, 2, 3, 4, 6, 9]))
            cells = []
            density = rng.choice([0.2, 0.5, 0.9])
            if rng.random() < 0.02:
                labels, density = rng.sample(range(len(LABELS)), rng.randint(20, 40)), rng.choice([0.05, 0.3])
            kind = rng.choice(['int', 'int', 'dec', 'mixed', 'small', 'float'])
            for p in labels:
                for a in labels:
                    if rng.random() < density:
                        v = rng.choice([0, 0, 1, 1, 2, 3, 10, 1000, 10 ** 9, 2 ** 53 + 1, 10 ** 20 + 7])
                        if kind == 'dec' or (kind == 'mixed' and rng.random() < 0.5):
                            v = rng.choice(['0.5', '0', '1.25', '3', '0.001', '0.0', '12.75'])
                        if kind == 'float':
                            v = rng.choice([0.5, 0.1, 0.0, 2.25, 3.0, 1, 1e-3, 12.7, 1e6])
                        if kind == 'small':
                            v = rng.choice([0, 1])
                        if p == a and rng.random() < 0.2:
                            v = 0
                        cells.append([p, a, v])
            ms.append({'cells': cells, 'own': rng.random() < 0.12})
        queries = []
        for _ in range(rng.randint(2, 12)):
            which = rng.choice(['precision', 'recall', 'fmeasure'])
            q = {'which': which, 'by': rng.choice(['class', 'class', 'micro', 'macro', 'default'])}
            if q['by'] == 'class':
                q['label'] = rng.randrange(16 if rng.random() < 0.8 else len(LABELS))
            if which == 'fmeasure' and rng.random() < 0.6:
                q['beta'] = rng.choice([0, 1, 2, 5, '0.5', '2.25', '0.1', 100, 'f0.5', 'f1.5', '0.0004', 'f0.0004', '0.3333333', 'f2.718281828', '1.00001', '0.000000001', 'f1234.5678', 10 ** 6])
            q['pos'] = rng.random() < 0.3
            queries.append(q)
        yield {'ms': ms, 'dict': n > 1 or rng.random() < 0.1, 'qs': queries, 'read': rng.random() < 0.3,
               'map': rng.choice(kinds.MAPPINGS)}


def build(A, ctx, spec):
    if 'segs' in spec:
        ctx.feature('from_segmentations')
        kw = {}
        if spec['half']:
            # near misses worth a half, in floats
            kw['weight'] = (A.weight_a, A.weight_s, lambda transpositions, max_n: 0.5 * len(transpositions))
        a, b = [gen.as_sets(x) for x in spec['segs']]
        m = ctx.call(A.boundary_confusion_matrix, a, b, n_t=spec['n_t'], boundary_format=A.BoundaryFormat.sets, **kw)
        if any(isinstance(v, float) for row in m.values() for v in row.values()):
            ctx.feature('from_segmentations_with_float_weights')
        return m, dict((k, Fraction(v)) for k, v in common.nonzero_cells(m).items()), set(m.classes())
    if spec['own']:
        ctx.feature('subclass')
    m = ctx.call(kinds.matrix() if spec['own'] else A.ConfusionMatrix)
    cells, classes = {}, set()
    for p, a, v in spec['cells']:
        p, a = LABELS[p], LABELS[a]
        m[p][a] = Decimal(v) if isinstance(v, str) else v
        if isinstance(v, str):
            ctx.feature('decimal_counts')
        if isinstance(v, float):
            ctx.feature('float_counts')
        cells[(p, a)] = Fraction(v)
        classes.update([p, a])
    return m, cells, classes


def run(case, ctx):
    A = api()
    built = [build(A, ctx, s) for s in case['ms']]
    if not built[0][2]:
        ctx.feature('empty_matrix')
    if any(c and cells.get((c, c), 0) == 0 for _, cells, classes in built for c in classes):
        ctx.feature('zero_diagonal')
    if any(len(classes) > 5 for _, _, classes in built):
        ctx.feature('over_5_classes')
    if len(built) > 10:
        ctx.feature('over_10_matrices')
    if any(len(classes) > 20 for _, _, classes in built):
        ctx.feature('over_20_classes')
    for _, cells, classes in built:
        if any(v for (p, a), v in cells.items() if p == a) and any(v for (p, a), v in cells.items() if p != a):
            ctx.nontrivial()
    if case['read']:
        ctx.feature('after_read')
        for m, cells, classes in built:
            for p in list(classes):
                for a in list(classes):
                    m[p][a]
    if case['dict']:
        ctx.feature('dictionary')
        ctx.feature('mapping_' + case['map'])
        target = kinds.mapping(case['map'], dict(('m%d' % i, b[0]) for i, b in enumerate(built)))
    else:
        target = built[0][0]
    # counts in floats are added up in floats
    inexact = [Fraction(1, 10 ** 11) if any(isinstance(v, float) for row in b[0].values() for v in row.values()) else None
               for b in built]
    log = []
    for q in case['qs'] + case['qs'][:2]:
        fn = A[q['which']]
        kw, beta = {}, Fraction(1)
        if 'beta' in q:
            raw = q['beta']
            if isinstance(raw, str) and raw[0] == 'f':
                beta = Fraction(raw[1:])
                kw['beta'] = float(raw[1:])
            else:
                beta = Fraction(raw)
                kw['beta'] = Decimal(raw) if isinstance(raw, str) else raw
            if beta == 0:
                ctx.feature('beta_zero')
            if beta.denominator > 1000:
                ctx.feature('beta_many_digits')
            if beta.denominator != 1:
                ctx.feature('beta_fraction')
        args = [target]
        if q['by'] == 'class':
            label = LABELS[q['label']]
            ctx.feature('one_class')
            if label is None:
                continue
            if label not in built[0][2]:
                ctx.feature('absent_class')
            if q['pos']:
                args.append(label)
            else:
                kw['classification'] = label
            want = [oracle.ml_value(cells, label, q['which'], beta) for _, cells, _ in built]
        else:
            version = 'macro' if q['by'] == 'macro' else 'micro'
            ctx.feature(version)
            if q['by'] != 'default':
                kw['version'] = getattr(A.Average, version)
            want = [oracle.ml_average(cells, classes, q['which'], version, beta) for _, cells, classes in built]
        got = ctx.call(fn, *args, **kw)
        log.append(q)
        if case['dict']:
            ctx.expect(isinstance(got, dict) and set(got) == set(target), 'statistics of a dictionary are %s' % short(got), queries=log)
            got = [got['m%d' % i] for i in range(len(built))]
        else:
            got = [got]
        for i, (g, w) in enumerate(zip(got, want)):
            common.must_close(ctx, g, w, '%s by %s' % (q['which'], q['by']), tol=inexact[i], queries=log, matrix=case['ms'][i])
    for m, cells, classes in built:
        ctx.expect(set(m.classes()) == classes, 'classes are %r after the queries, %r before' % (m.classes(), classes), queries=log)
        now = dict((k, Fraction(v)) for k, v in common.nonzero_cells(m).items())
        ctx.expect(now == dict((k, v) for k, v in cells.items() if v), 'counts changed by queries', queries=log)
