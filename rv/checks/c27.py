"""C27: weighting functions, and what user-supplied ones receive."""
import functools
from collections import Counter
from decimal import Decimal
from fractions import Fraction
from rv import gen, oracle
from rv.core import api, short
from rv.checks import common

INTERPRETERS = 'both'
REQUIRED = ['no_edits', 'additions', 'substitutions', 'transpositions', 'reversed_pairs', 'negative_types', 'large_types',
            'min_default', 'min_given', 'split', 'shuffled', 'recorded', 'recorded_stats', 'recorded_bs', 'recorded_ss',
            'recorded_cm', 'recorded_agreement', 'recorded_dataset', 'recorded_edits', 'several_types', 'boundary_free',
            'returned_zero', 'entries_one_dataset', 'entries_permuted', 'entries_two_datasets', 'tuples_and_lists', 'over_1000_edits', 'form_tuple',
            'form_list', 'form_partial', 'form_objects', 'form_methods', 'raises', 'raises_dataset', 'raises_agreement', 'raises_weight_0', 'raises_weight_1', 'raises_weight_2']
RULE = ('random edit lists given directly to the five functions (values against exact arithmetic, shuffled, split); and user '
        'triples that record their arguments while every edit-distance based metric runs over random pairs; non-trivial: at '
        'least one edit')
ASSUMPTIONS = ['values agree to 1e-20 relative']


class Mine(Exception):
    pass


ERRORS = [Mine, ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError, AssertionError]


def cases(ctx):
    for case in _cases(ctx):
        if case['k'] != 'direct':
            # what carries the triple, and what kind of callable the functions are
            case['form'] = ctx.rng.choice(Recorder.FORMS)
            ctx.feature('form_' + case['form'])
        yield case


def _cases(ctx):
    rng = ctx.rng
    for _ in range(ctx.scale(700, 20000)):
        lo = rng.choice([1, 1, 1, 0, -5, 100, 10 ** 9])
        hi = lo + rng.choice([0, 1, 1, 2, 4, 9, 1000])
        sizes = [0, 1, 2, 3, 5, 9, 40] if rng.random() < 0.98 else [0, 257, 1100, 5000]
        ns = rng.choice(sizes)
        subs = [[rng.randint(lo, hi), rng.randint(lo, hi)] for _ in range(ns)]
        n = rng.choice([1, 2, 3, 5, 12])
        tr = []
        for _ in range(rng.choice(sizes)):
            i = rng.randint(0, 500)
            j = i + rng.randint(0, max(0, n - 1))
            tr.append([i, j, rng.randint(lo, hi)] if rng.random() < 0.7 else [j, i, rng.randint(lo, hi)])
        ad = [[rng.randint(lo, hi), rng.choice('ab')] for _ in range(rng.choice(sizes))]
        yield {'k': 'direct', 'lo': lo, 'hi': hi, 'n': n, 's': subs, 't': tr, 'a': ad, 'shuffle': rng.randrange(10 ** 6),
               'cut': rng.random(), 'seq': rng.choice(['tuple', 'list']), 'default': rng.random() < 0.4}
    for _ in range(ctx.scale(420, 12000)):
        if rng.random() < 0.5:
            a, b = gen.mass_pair(rng, big=False)
            yield {'k': 'rec', 'ma': a, 'mb': b, 'e': gen.encoding(rng), 'n_t': gen.n_t(rng, sum(a)), 'ret': rng.choice(['0', '1', '0.5'])}
        else:
            a, b = gen.string_pair(rng)
            yield {'k': 'rec', 'a': a, 'b': b, 'n_t': gen.n_t(rng, len(a)), 'ret': rng.choice(['0', '1', '0.25'])}
    for _ in range(ctx.scale(30, 600)):
        ds = gen.dataset(rng, nmax=16, items=rng.choice([1, 2]), coders=rng.choice([2, 3]), many=False)
        yield {'k': 'ds', 'ds': ds, 'e': gen.encoding(rng), 'n_t': gen.n_t(rng, 10)}
    for _ in range(ctx.scale(30, 600)):
        ds = gen.dataset(rng, nmax=16, items=rng.choice([1, 2]), coders=rng.choice([2, 3]), many=False)
        yield {'k': 'raises', 'ds': ds, 'e': gen.encoding(rng), 'n_t': gen.n_t(rng, 10), 'which': rng.randrange(3),
               'error': rng.randrange(len(ERRORS)), 'form': 'tuple'}
        yield {'k': 'entries', 'ds': ds, 'e': gen.encoding(rng), 'n_t': gen.n_t(rng, 10), 'permuted': rng.choice([None, True, False]),
               'two': rng.random() < 0.4, 'one_minus': rng.random() < 0.3, 'ret': rng.choice(['0', '0.5', '2']),
               'fn': rng.choice(['boundary_similarity', 'segmentation_similarity', 'boundary_statistics'])}


def run(case, ctx):
    A = api()
    if case['k'] == 'direct':
        direct(case, ctx, A)
    elif case['k'] == 'rec':
        recorded(case, ctx, A)
    elif case['k'] == 'raises':
        raises(case, ctx, A)
    elif case['k'] == 'entries':
        entries(case, ctx, A)
    else:
        over_dataset(case, ctx, A)


def direct(case, ctx, A):
    import random
    seq = tuple if case['seq'] == 'tuple' else list
    subs, tr = [seq(x) for x in case['s']], [seq(x) for x in case['t']]
    ad = [seq(x) for x in case['a']]
    lo, hi, n = case['lo'], case['hi'], case['n']
    if not subs or not tr or not ad:
        ctx.feature('no_edits')
    for x, f in ((ad, 'additions'), (subs, 'substitutions'), (tr, 'transpositions')):
        if x:
            ctx.feature(f)
            ctx.nontrivial()
    if any(x[0] > x[1] for x in subs + tr):
        ctx.feature('reversed_pairs')
    if max(len(subs), len(tr), len(ad)) > 1000:
        ctx.feature('over_1000_edits')
    if lo < 0:
        ctx.feature('negative_types')
    if lo > 256:
        ctx.feature('large_types')
    ctx.feature('tuples_and_lists')
    mins = [lo]
    ctx.feature('min_given')
    if lo == 1 and case['default']:
        ctx.feature('min_default')
        mins.append(None)
    rng = random.Random(case['shuffle'])
    for mn in mins:
        rest = () if mn is None else (mn,)

        def scaled(part):
            return Fraction(sum(abs(x[0] - x[1]) for x in part), hi - lo + 1)

        def spans(part):
            return Fraction(sum(abs(x[0] - x[1]) for x in part), n)
        for fn, edits, args, want in (
                (A.weight_a, ad, (), lambda p: Fraction(len(p))),
                (A.weight_s, subs, (hi,) + rest, lambda p: Fraction(len(p))),
                (A.weight_s_scale, subs, (hi,) + rest, scaled),
                (A.weight_t, tr, (n,), lambda p: Fraction(len(p))),
                (A.weight_t_scale, tr, (n,), spans)):
            info = dict(edits=edits, arguments=args)
            before = [list(x) for x in edits]
            common.must_close(ctx, ctx.call(fn, edits, *args), want(edits), fn.__name__, **info)
            mixed = list(edits)
            rng.shuffle(mixed)
            ctx.feature('shuffled')
            common.must_close(ctx, ctx.call(fn, mixed, *args), want(edits), fn.__name__ + ' after reordering', **info)
            cut = int(case['cut'] * (len(edits) + 1))
            one, two = edits[:cut], edits[cut:]
            ctx.feature('split')
            common.must_close(ctx, Fraction(ctx.call(fn, one, *args)) + Fraction(ctx.call(fn, two, *args)), want(edits),
                              fn.__name__ + ' of the two halves together', **info)
            ctx.expect(Fraction(ctx.call(fn, [], *args)) == 0, fn.__name__ + ' of no edits is not 0', **info)
            ctx.expect([list(x) for x in edits] == before, fn.__name__ + ' changed its argument', **info)


class Recorder(object):
    """a user triple, in general not additive, that records what it is given"""

    FORMS = ['tuple', 'tuple', 'list', 'partial', 'objects', 'methods']

    def __init__(self, ret, form='tuple'):
        self.ret = Decimal(ret)
        self.form = form
        self.a, self.s, self.t = [], [], []

    def triple(self):
        def my_weight_a(additions):
            self.a.append(([tuple(x) for x in additions], None))
            return self.ret * len(additions)

        def my_weight_s(substitutions, max_s, min_s=1):
            self.s.append(([tuple(x) for x in substitutions], (max_s, min_s)))
            return self.ret * len(substitutions) + self.ret

        def my_weight_t(transpositions, max_n):
            self.t.append(([tuple(x) for x in transpositions], max_n))
            return self.ret * len(transpositions) ** 2
        own = [my_weight_a, my_weight_s, my_weight_t]
        if self.form == 'partial':
            own = [functools.partial(f) for f in own]
        elif self.form == 'objects':
            own = [oracle.Callable(f) for f in own]
        elif self.form == 'methods':
            own = [oracle.Callable(f).method for f in own]
        return own if self.form == 'list' else tuple(own)


def inside(part, whole):
    return not (Counter(part) - Counter(whole))


def examine(ctx, rec, edits, types, n_t, kinds, info, exact=True):
    """every recorded call got edits of its kind and the right parameters"""
    A_, S_, T_ = [[tuple(e) for e in x] for x in edits]
    for log, whole, param, name in ((rec.a, A_, None, 'addition'), (rec.s, S_, (max(types), min(types)), 'substitution'),
                                    (rec.t, T_, n_t, 'transposition')):
        for given, p in log:
            ctx.events['recorded_weight_call'] += 1
            ctx.expect(inside(given, whole), 'the %s weight received %s, the edits are %s' % (name, short(given), short(whole)), **info)
            ctx.expect(p == param, 'the %s weight received the parameter %r, expected %r' % (name, p, param), **info)
        if name[0] in kinds:
            ctx.expect(any(Counter(g) == Counter(whole) for g, _ in log),
                       'the %s weight was never given the %ss of the comparison (%d calls)' % (name, name, len(log)), **info)


def recorded(case, ctx, A):
    if 'ma' in case:
        e = case['e']
        x, y = gen.encode(case['ma'], e), gen.encode(case['mb'], e)
        a, b = oracle.masses_to_string(case['ma']), oracle.masses_to_string(case['mb'])
        bf = gen.boundary_format(A, e)
    else:
        x, y = gen.as_sets(case['a']), gen.as_sets(case['b'])
        a, b = list(x), list(y)
        bf = A.BoundaryFormat.sets
    n_t = case['n_t']
    types = oracle.types_of(a, b)
    if len(types) > 1:
        ctx.feature('several_types')
    if not any(a) and not any(b):
        ctx.feature('boundary_free')
    info = dict(a=x, b=y, options=case)
    opts = dict(boundary_format=bf, n_t=n_t)
    ctx.feature('recorded')
    if case['ret'] == '0':
        ctx.feature('returned_zero')
    # statistics hand out the edits themselves
    rec = Recorder(case['ret'], case['form'])
    s = ctx.call(A.boundary_statistics, x, y, weight=rec.triple(), **opts)
    edits = s['additions'], s['substitutions'], s['transpositions']
    if any(edits):
        ctx.feature('recorded_edits')
        ctx.nontrivial()
    examine(ctx, rec, edits, types, n_t, 'ast', dict(info, function='boundary_statistics'))
    ctx.feature('recorded_stats')
    r = rec.ret
    want = Fraction(r) * (len(edits[0]) + len(edits[1]) + 1 + len(edits[2]) ** 2)
    common.must_close(ctx, s['count_edits'], want, 'weighted edits under the user triple', **info)
    for fn, f in ((A.boundary_similarity, 'recorded_bs'), (A.segmentation_similarity, 'recorded_ss')):
        rec = Recorder(case['ret'], case['form'])
        parts = ctx.call(fn, x, y, weight=rec.triple(), return_parts=True, **opts)
        ctx.feature(f)
        examine(ctx, rec, edits, types, n_t, 'ast', dict(info, function=fn.__name__))
        common.must_close(ctx, Fraction(parts[1]) - Fraction(parts[0]), want, '%s: weighted edits under the user triple' % fn.__name__, **info)
    rec = Recorder(case['ret'], case['form'])
    m = ctx.call(A.boundary_confusion_matrix, x, y, weight=rec.triple(), **opts)
    ctx.feature('recorded_cm')
    examine(ctx, rec, edits, types, n_t, '', dict(info, function='boundary_confusion_matrix'))
    # near misses are scaled one by one there
    near = Counter(e[2] for e in map(tuple, edits[2]))
    match = Counter(t for p, q in zip(a, b) for t in set(p) & set(q))
    for t in set(near) | set(match):
        common.must_close(ctx, m[t][t], match[t] + near[t] * Fraction(r), 'matrix diagonal of type %r under the user triple' % (t,), **info)


def over_dataset(case, ctx, A):
    ds = gen.encode_dataset(A, case['ds'], case['e'])
    n_t = case['n_t']
    info = dict(dataset=case['ds'], encoding=case['e'], n_t=n_t)
    ctx.nontrivial()
    for fn, f in ((A.boundary_similarity, 'recorded_dataset'), (A.actual_agreement_linear, 'recorded_agreement'),
                  (A.fleiss_pi_linear, 'recorded_agreement'), (A.fleiss_kappa_linear, 'recorded_agreement'),
                  (A.artstein_poesio_bias_linear, 'recorded_agreement'), (A.boundary_statistics, 'recorded_dataset')):
        if 'agreement' in f and not gen.agreeable(case['ds']):
            continue
        rec = Recorder('0.5', case['form'])
        st, v = ctx.outcome(fn, ds, weight=rec.triple(), n_t=n_t)
        if st == 'error':
            # a coefficient may be undefined (expected agreement 1); the calls made until then count
            ctx.expect('agreement' in f, '%s raised %r' % (fn.__name__, v), **info)
        ctx.feature(f)
        pairs = 0
        seen_a, seen_t = Counter(), Counter()
        for it, cs in case['ds'].items():
            names = sorted(cs)
            for i, c in enumerate(names):
                for d in names[i + 1:]:
                    s = oracle.bed_summary(oracle.masses_to_string(cs[c]), oracle.masses_to_string(cs[d]), n_t)
                    pairs += 1
                    seen_a[s['A']] += 1
                    seen_t[(s['T'], s['T_span'])] += 1
        got_a = Counter(len(g) for g, _ in rec.a)
        got_t = Counter((len(g), sum(abs(e[0] - e[1]) for e in g)) for g, _ in rec.t)
        for want, got, what in ((seen_a, got_a, 'addition'), (seen_t, got_t, 'transposition')):
            ctx.expect(set(want) == set(got), '%s: the %s weight received edit lists of sizes %s, the pairs have %s' % (
                fn.__name__, what, short(sorted(got)), short(sorted(want))), **info)
        ctx.expect(all(p == n_t for _, p in rec.t), '%s: limits received %s' % (fn.__name__, short(set(p for _, p in rec.t))), **info)
        ctx.expect(all(p == (1, 1) and not g for g, p in rec.s), '%s: type ranges received %s' % (fn.__name__, short(rec.s[:5])), **info)


def entries(case, ctx, A):
    """the user triple applies to every entry of a dataset comparison"""
    ds = gen.encode_dataset(A, case['ds'], case['e'])
    n_t = case['n_t']
    info = dict(dataset=case['ds'], options=case)
    ctx.nontrivial()
    rec = Recorder(case['ret'], case['form'])
    o = {'weight': rec.triple(), 'n_t': n_t}
    if case['permuted'] is not None and not case['two']:
        o['permuted'] = case['permuted']
    if case['one_minus'] and case['fn'] != 'boundary_statistics':
        o['one_minus'] = True
    ctx.feature('entries_two_datasets' if case['two'] else 'entries_permuted' if case['permuted'] else 'entries_one_dataset')
    got = ctx.call(A[case['fn']], ds, gen.encode_dataset(A, case['ds'], case['e']), **o) if case['two'] else \
        ctx.call(A[case['fn']], ds, **o)
    r = Fraction(case['ret'])
    for entry, v in got.items():
        found = [(it, c, d) for it, cs in case['ds'].items() for c in cs for d in cs if ','.join([it, c, d]) == entry]
        ctx.expect(len(found) == 1, 'undocumented entry %r' % entry, **info)
        it, c, d = found[0]
        a, b = [oracle.masses_to_string(case['ds'][it][x]) for x in (c, d)]
        s = oracle.bed_summary(a, b, n_t)
        edits = r * (s['A'] + s['S'] + 1 + s['T'] ** 2)
        if case['fn'] == 'boundary_statistics':
            common.must_close(ctx, v['count_edits'], edits, 'weighted edits of %r under the user triple' % entry, **info)
            continue
        if case['fn'] == 'boundary_similarity':
            den = s['A'] + s['S'] + s['T'] + sum(oracle.matches(a, b).values())
        else:
            den = len(a) * len(oracle.types_of(a, b))
        value = (den - edits) / den if den else Fraction(1)
        common.must_close(ctx, v, 1 - value if 'one_minus' in o else value, '%s of %r under the user triple' % (case['fn'], entry), **info)


def raises(case, ctx, A):
    """the error of a user weight reaches the caller"""
    ds = gen.encode_dataset(A, case['ds'], case['e'])
    fmt = gen.boundary_format(A, case['e'])
    error = ERRORS[case['error']]('refused by the weight')

    def refuse(*args):
        raise error
    plain = [lambda additions: len(additions), lambda substitutions, a, b: len(substitutions), lambda transpositions, n: len(transpositions)]
    plain[case['which']] = refuse
    o = {'weight': tuple(plain), 'n_t': case['n_t']}
    ctx.feature('raises', 'raises_weight_%d' % case['which'])
    pairs = [(x, y) for cs in case['ds'].values() for x, y in zip(sorted(cs), sorted(cs)[1:])]
    if not pairs:
        return
    ctx.nontrivial()
    it = [it for it, cs in case['ds'].items() if len(cs) > 1][0]
    x, y = sorted(case['ds'][it])[:2]
    calls = []
    for name in ('boundary_similarity', 'segmentation_similarity', 'boundary_statistics'):
        calls.append((name, (ds[it][x], ds[it][y]), dict(o, boundary_format=fmt)))
        calls.append((name, (ds,), o))
        ctx.feature('raises_dataset')
    if gen.agreeable(case['ds']):
        ctx.feature('raises_agreement')
        for name in ('actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear'):
            calls.append((name, (ds,), o))
    for name, args, opts in calls:
        st, v = ctx.outcome(A[name], *args, **opts)
        ctx.expect(st == 'error' and v is error, '%s: the weight raised %r and the call gave %s' % (name, error, short(v)),
                   dataset=case['ds'], options=case)
