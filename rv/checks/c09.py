"""C09: boundary confusion matrices classify every boundary of a comparison."""
from collections import Counter
from fractions import Fraction
from rv import oracle
from rv.core import api, short
from rv.checks import common, simpairs

INTERPRETERS = 'both'
SHARING = True
EXPLICIT = True
REQUIRED = simpairs.FEATURES + ['missed', 'spurious']
REQUIRED += ['explicit_' + o for o in ['permuted', 'n_t', 'weight']]
RULE = ('all mass pairs up to 5 (thorough 7) units and small multi-type scopes, plus random pairs in all four formats, '
        'each in both directions; every cell compared with the model; non-trivial: the pair differs')
ASSUMPTIONS = ['user transposition weights are additive over edits', 'cells holding 0 count as absent']


def cases(ctx):
    return simpairs.cases(ctx, 1100, 26000, additive=True)


def judge(ctx, cells, a, b, n_t, w, info):
    s = oracle.bed_summary(a, b, n_t)
    left = {}
    for k, v in cells.items():
        ctx.expect(common.is_number(v), 'cell %r holds %r' % (k, v), **info)
        left[k] = Fraction(v)
    # diagonal: matches and scaled near misses
    m = oracle.matches(a, b)
    diag = dict((t, Fraction(c)) for t, c in m.items())
    for i, j, t in s['trans']:
        one = {'T': 1, 'T_span': j - i}
        diag[t] = diag.get(t, Fraction(0)) + w.value_t(one, n_t)
    for t in set(diag) | set(k[0] for k in left if k[0] == k[1]):
        v = left.pop((t, t), Fraction(0))
        ctx.expect(oracle.close(v if v.denominator == 1 else float(v), diag.get(t, Fraction(0)), Fraction(1, 10 ** 12)),
                   'diagonal of %r is %s, expected %s' % (t, float(v), float(diag.get(t, 0))), cells=cells, **info)
    adds, subs = [], []
    for (h, r), v in left.items():
        ctx.expect(v.denominator == 1 and v >= 0, 'cell %r holds %s' % ((h, r), v), cells=cells, **info)
        if h is None:
            adds += [(r, 'a')] * int(v)
        elif r is None:
            adds += [(h, 'b')] * int(v)
        else:
            subs += [(h, r)] * int(v)
    if any(x[1] == 'a' for x in adds):
        ctx.feature('missed')
    if any(x[1] == 'b' for x in adds):
        ctx.feature('spurious')
    msg = oracle.explain_edits(a, b, n_t, adds, subs, s['trans'])
    ctx.expect(msg is None, 'off-diagonal cells: %s' % msg, cells=cells, **info)
    return s


def run(case, ctx):
    A = api()
    x, y, opts, a, b, n_t, w = simpairs.materialise(case, ctx, A)
    info = dict(a=x, b=y, options=case)
    m = simpairs.call(ctx, A.boundary_confusion_matrix, case, x, y, **opts)
    ctx.expect(isinstance(m, A.ConfusionMatrix), 'result is a %s' % type(m).__name__)
    cells = common.nonzero_cells(m)
    s = judge(ctx, cells, a, b, n_t, w, info)
    common.describe_string_pair(ctx, a, b, n_t, s)
    # reading through the matrix interface gives the same cells
    for (h, r), v in cells.items():
        ctx.expect(m[h][r] == v, 'cell %r reads as %r' % ((h, r), m[h][r]), **info)
    classes = m.classes()
    used = set(h for h, r in cells) | set(r for h, r in cells)
    ctx.expect(used <= classes and classes <= used | set(oracle.types_of(a, b)) | set([None]),
               'classes are %r for cells %r' % (classes, cells), **info)
    back = common.nonzero_cells(simpairs.call(ctx, A.boundary_confusion_matrix, case, y, x, **opts))
    judge(ctx, back, b, a, n_t, w, dict(a=y, b=x, options=case))
    if all(len(oracle.pairings(p, q)[2]) == 1 for p, q in s['residual'].values()):
        ctx.expect(common.same(dict(((r, h), v) for (h, r), v in back.items()), cells),
                   'swapping the segmentations does not transpose the matrix', cells=cells, swapped=back, **info)
