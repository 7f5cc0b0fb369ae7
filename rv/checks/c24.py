"""C24: evaluation is a pure function of its arguments, over whole histories of calls."""
import copy
import decimal
import math
from decimal import Decimal
from fractions import Fraction
from rv import core, gen, oracle
from rv.core import Violation, api, short
from rv.checks import common

INTERPRETERS = 'both'
REQUIRED = ['call', 'repeat_same_object', 'fresh_equal_object', 'argument_edited', 'argument_edited_back', 'result_edited',
            'failed_call', 'reentrant_weight', 'reentrant_round', 'reentrant_compare', 'callback_raised', 'sample_as_argument',
            'samples_unchanged', 'defaults_unchanged', 'arg_pair', 'arg_dataset', 'arg_two_datasets', 'arg_matrix', 'arg_values',
            'arg_strings', 'arg_edits', 'window_size', 'conversion', 'agreement', 'nested_in_callback', 'mutable_sets',
            'other_rounding', 'same_call_other_options', 'many_values', 'refused_agreement', 'context_watched', 'edited_to_same_length_and_sum',
            'arg_matrices', 'matrix_edited', 'edited_coder', 'edited_segmentation', 'plain_dictionary', 'context_of_the_caller']
RULE = ('random histories over the whole public API: calls, repeated calls on the same and on fresh equal arguments, arguments '
        'edited in place and back, results vandalised, refused calls, calls re-entered from weight/rounding/comparison '
        'callbacks, callbacks that raise; arguments frozen before and compared after each call, results compared with the '
        'first one for equal arguments, bundled data and default behaviour re-examined; non-trivial: at least three calls '
        'after the first')
ASSUMPTIONS = ['a confusion matrix is its non-zero cells and its classes (reading a cell stores a zero)',
               'lists of edits and per-pair parts are compared as multisets, numbers to 1e-11 (summation order)']
METRICS = ['boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix', 'pk', 'window_diff']
WINDOW = ('pk', 'window_diff')
PLAIN = ('boundary_statistics', 'boundary_confusion_matrix')
COEFFS = ['actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear']
STEPS = ['call'] * 6 + ['fresh'] * 3 + ['edit'] * 4 + ['vandal'] * 4 + ['reenter'] * 4 + ['raise'] * 3 + ['fail'] * 3


# ------------------------------------------------------------------ generation
def metric_options(rng, metric):
    o = {}
    if metric not in PLAIN and rng.random() < 0.35:
        o[rng.choice(['one_minus', 'return_parts'])] = True
    if metric in WINDOW:
        if rng.random() < 0.35:
            o['window_size'] = rng.choice([1, 2, 3, 7])
        elif rng.random() < 0.5:
            o['fnc_round'] = rng.choice(['floor', 'ceil'])
        if metric == 'window_diff' and rng.random() < 0.4:
            o['lamprier_et_al_2007_fix'] = True
    else:
        if rng.random() < 0.4:
            o['n_t'] = rng.choice([1, 3, 4, 8])
        if rng.random() < 0.2:
            o['weight'] = rng.choice(['unweighted', 'list'])
    return o


def argument(rng):
    t = rng.choice(['pair', 'pair', 'pair', 'typed', 'ds', 'ds', 'ds2', 'matrix', 'matrices', 'values', 'strings', 'edits', 'sample'])
    s = {'t': t}
    if t == 'pair':
        s['e'] = gen.encoding(rng, ('mass', 'mass', 'mass', 'position', 'nltk', 'sets'))
        if rng.random() < 0.5:
            s['e']['c'] = 'list'
        s['v'] = [list(gen.mass_pair(rng, rng.choice([2, 5, 9, 14, 25, 60]))) for _ in range(2)]
        if rng.random() < 0.6:
            s['v'][1] = [shifted(rng, m) for m in s['v'][0]]
    elif t in ('typed', 'strings'):
        s['v'] = [list(gen.string_pair(rng, rng.choice([1, 3, 6, 12]))) for _ in range(2)]
        if rng.random() < 0.6:
            s['v'][1] = [[list(p) for p in reversed(x)] for x in s['v'][0]]
        s['c'], s['s'] = gen.container(rng), rng.choice(['set', 'set', 'frozenset'])
    elif t in ('ds', 'ds2'):
        s['e'] = gen.encoding(rng, ('mass', 'mass', 'position', 'nltk'))
        s['v'] = [gen.dataset(rng, items=rng.choice([1, 2]), coders=rng.choice([2, 3]), nmax=14, many=False) for _ in range(2)]
        if rng.random() < 0.6:
            s['v'][1] = dict((it, dict((c, shifted(rng, m)) for c, m in cs.items())) for it, cs in s['v'][0].items())
        if t == 'ds' and s['e']['f'] == 'mass' and rng.random() < 0.25:
            s['plain'] = True
        if t == 'ds2':
            # the second dataset covers the same texts
            s['v'] = [[d, dict((it, dict(('z' + c, gen.jitter(rng, m)) for c, m in cs.items())) for it, cs in d.items())]
                      for d in s['v']]
    elif t in ('matrix', 'matrices'):
        def cells():
            return [[rng.choice('abc'), rng.choice('abc'), rng.randint(1, 9)] for _ in range(rng.randint(1, 6))]

        def recounted(v):
            return [[p, a, n + rng.choice([0, 1, 4])] for p, a, n in v]
        if t == 'matrix':
            one = cells()
            s['v'] = [one, recounted(one) if rng.random() < 0.7 else cells()]
        else:
            one = [cells() for _ in range(rng.choice([1, 2, 3]))]
            s['v'] = [one, [recounted(v) for v in one]]
    elif t == 'values':
        s['v'] = [[rng.choice([1, 0, '0.25', '0.7', 3]) for _ in range(rng.choice([1, 2, 3, 6, 60, 150]))] for _ in range(2)]
    elif t == 'edits':
        s['v'] = [[[rng.randint(1, 9), rng.randint(1, 9), 1] for _ in range(rng.randint(0, 5))] for _ in range(2)]
    elif t == 'sample':
        s['i'] = rng.choice([0, 1, 2, 3, 4, 5])
    return s


def shifted(rng, masses):
    """other segments, as many and as long in total, often with the same first or last one"""
    m = list(masses)
    how = rng.choice(['move', 'move', 'reverse', 'shuffle'])
    if how == 'reverse':
        m.reverse()
    elif how == 'shuffle':
        rng.shuffle(m)
    long = [i for i in range(len(m)) if m[i] > 1]
    if (how == 'move' or m == list(masses)) and long and len(m) > 1:
        i = rng.choice(long)
        j = rng.choice([x for x in range(len(m)) if x != i])
        m[i] -= 1
        m[j] += 1
    return m


def again(rng, names):
    """the first one sometimes twice: the same function with other options"""
    return names + names[:1] if rng.random() < 0.5 else names


def window_roundings(rng):
    return [{}] + [{'fnc_round': r} for r in ('floor', 'ceil') if rng.random() < 0.3]


def calls_for(rng, k, s):
    t = s['t']
    out = []
    if t in ('pair', 'typed'):
        f = s['e']['f'] if t == 'pair' else 'sets'
        for m in again(rng, rng.sample(METRICS, 3)):
            if m in WINDOW and f == 'sets':
                continue
            out.append({'fn': m, 'o': metric_options(rng, m), 'kw': rng.random() < 0.2, 'bf': f})
        if t == 'pair':
            if f in ('mass', 'position'):
                for r in window_roundings(rng):
                    out.append({'fn': 'compute_window_size', 'o': dict(r), 'bf': f, 'first': True})
            c = {'mass': ['boundary_string_from_masses', 'convert_masses_to_positions'], 'position': ['convert_positions_to_masses'],
                 'nltk': ['convert_nltk_to_masses'], 'sets': []}[f]
            out += [{'fn': n, 'o': {}, 'first': True, 'ordered': True} for n in c]
    elif t in ('ds', 'ds2', 'sample'):
        for m in () if s.get('plain') else again(rng, rng.sample(METRICS, 2 if t != 'sample' else 1)):
            o = metric_options(rng, m)
            if rng.random() < 0.3:
                o['permuted'] = rng.random() < 0.5
            out.append({'fn': m, 'o': o})
        if t != 'ds2':
            for m in again(rng, rng.sample(COEFFS, 2 if t != 'sample' else 1)):
                o = {'return_parts': True} if rng.random() < 0.3 else {}
                if rng.random() < 0.3:
                    o['n_t'] = rng.choice([1, 3])
                if rng.random() < 0.3:
                    o['fnc_compare'] = 'S'
                out.append({'fn': m, 'o': o})
            for r in window_roundings(rng):
                out.append({'fn': 'compute_window_size', 'o': dict(r)})
    elif t in ('matrix', 'matrices'):
        if t == 'matrix':
            out += [{'fn': 'matrix_classes', 'o': {}}, {'fn': 'matrix_cells', 'o': {}}]
        for m in ('precision', 'recall', 'fmeasure'):
            o = {}
            if rng.random() < 0.6:
                o['classification'] = rng.choice('abcx')
            elif rng.random() < 0.5:
                o['version'] = 1
            if m == 'fmeasure' and rng.random() < 0.4:
                o['beta'] = rng.choice([2, 0.5])
            out.append({'fn': m, 'o': o})
    elif t == 'values':
        out.append({'fn': 'summarize', 'o': {}})
    elif t == 'strings':
        out.append({'fn': 'boundary_edit_distance', 'o': {'n_t': rng.choice([1, 2, 3, 6])}})
    elif t == 'edits':
        out += [{'fn': 'weight_a', 'o': {}}, {'fn': 'weight_s_scale', 'o': {'max_s': 9}}, {'fn': 'weight_t_scale', 'o': {'max_n': 9}},
                {'fn': 'weight_s', 'o': {'max_s': 9, 'min_s': 0}}, {'fn': 'weight_t', 'o': {'max_n': 9}}]
    for c in out:
        c['arg'] = k
    return out


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.scale(380, 5200)):
        args = [argument(rng) for _ in range(rng.randint(2, 5))]
        calls = [c for k, s in enumerate(args) for c in calls_for(rng, k, s)]
        if not calls:
            continue
        steps = [[rng.choice(STEPS), rng.randrange(len(calls)), rng.randrange(1000)] for _ in range(rng.choice([8, 15, 30]))]
        yield {'args': args, 'calls': calls, 'steps': steps,
               'context': rng.choice([[50, 'ROUND_HALF_EVEN'], [34, 'ROUND_DOWN'], [28, 'ROUND_HALF_UP'], [24, 'ROUND_CEILING']]) if rng.random() < 0.2 else None}


# ---------------------------------------------------------------- observation
def freeze(x):
    """everything a caller could see of an argument, deeply"""
    name = type(x).__name__
    if name == 'ConfusionMatrix':
        return (name, tuple(sorted(((repr(k), v) for k, v in common.nonzero_cells(x).items()), key=repr)),
                tuple(sorted(map(repr, x.classes()))))
    if name == 'Dataset':
        return (name, tuple((k, freeze(v)) for k, v in x.items()), freeze(x.properties), tuple(sorted(map(repr, x.coders))),
                tuple(sorted(map(repr, x.boundary_types))), x.boundary_format)
    if isinstance(x, dict):
        return (name, tuple((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return (name, tuple(sorted(x, key=repr)))
    if isinstance(x, (list, tuple)):
        return (name, tuple(freeze(v) for v in x))
    return (name, x)


def norm(x, ordered=False):
    """a result, detached from the objects returned"""
    if common.is_number(x):
        return Fraction(x)
    if type(x).__name__ == 'ConfusionMatrix':
        return dict((k, Fraction(v)) for k, v in common.nonzero_cells(x).items())
    if isinstance(x, dict):
        return dict((k, norm(v, ordered)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return frozenset(x)
    if isinstance(x, tuple) or (ordered and isinstance(x, list)):
        return tuple(norm(v, ordered) for v in x)
    if isinstance(x, list):
        return ['multiset'] + sorted((norm(v) for v in x), key=repr)
    return x


def context():
    """the arithmetic in which later calls (and the caller) compute"""
    c = decimal.getcontext()
    return c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(str(k) for k, on in c.traps.items() if on))


def vandalise(x, depth=0):
    """edit everything mutable in a result"""
    if depth > 4:
        return
    if type(x).__name__ == 'ConfusionMatrix':
        x['vandal'][1] += 41
        for row in list(x.values()):
            for k in list(row):
                row[k] = 999
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            vandalise(v, depth + 1)
        x.clear()
    elif isinstance(x, set):
        x.clear()
        x.add(77)
    elif isinstance(x, list):
        for v in x:
            vandalise(v, depth + 1)
        x.append(99)
        x.reverse()
    elif isinstance(x, tuple):
        for v in x:
            vandalise(v, depth + 1)


class Callback(Exception):
    """raised by our own callbacks"""


def matrix_classes(matrix):
    return matrix.classes()


def matrix_cells(matrix):
    return dict((p, dict((a, matrix[p][a]) for a in list(row))) for p, row in list(matrix.items()))


def function(A, name):
    return {'matrix_classes': matrix_classes, 'matrix_cells': matrix_cells}.get(name) or A[name]


def new_matrix(A, cells):
    m = A.ConfusionMatrix()
    for p, a, n in cells:
        m[p][a] += n
    return m


def recount(old, new):
    """the counts of another matrix of the same labels, in place"""
    if set((p, a) for p in old for a in old[p]) != set((p, a) for p in new for a in new[p]):
        return False
    for p in new:
        for a in new[p]:
            old[p][a] = new[p][a]
    return True


def refill(old, new, deep):
    """the codings of another dataset of the same items and coders, in place: by coder, or in the segmentations themselves"""
    # pairs are named in the order of the coders
    if [(it, c) for it in old for c in old[it]] != [(it, c) for it in new for c in new[it]]:
        return False
    for it in new:
        for c in new[it]:
            if deep and isinstance(old[it][c], list):
                old[it][c][:] = new[it][c]
            else:
                old[it][c] = new[it][c]
    return True


class Args(object):
    """one argument tuple, in one of two versions, edited in place where possible"""

    def __init__(self, A, spec):
        self.A, self.spec = A, spec
        self.version = 0
        self.objects = self.build(0)

    def build(self, version):
        A, s = self.A, self.spec
        t = s['t']
        if t == 'sample':
            return (A[core.SAMPLES[s['i']]],)
        v = s['v'][version]
        if t == 'pair':
            return gen.encode(v[0], s['e']), gen.encode(v[1], s['e'])
        if t in ('typed', 'strings'):
            return gen.as_sets(v[0], s['c'], s['s']), gen.as_sets(v[1], s['c'], s['s'])
        if t == 'ds':
            return (gen.encode_dataset(A, v, s['e'], as_dict=s.get('plain', False)),)
        if t == 'ds2':
            return gen.encode_dataset(A, v[0], s['e']), gen.encode_dataset(A, v[1], s['e'])
        if t == 'matrix':
            return (new_matrix(A, v),)
        if t == 'matrices':
            return (dict(('m%d' % i, new_matrix(A, x)) for i, x in enumerate(v)),)
        if t == 'values':
            return (dict((i, Decimal(x) if isinstance(x, str) else x) for i, x in enumerate(v)),)
        if t == 'edits':
            return ([tuple(x) for x in v],)
        raise KeyError(t)

    def edit(self, how=0, ctx=None):
        """to the other version, in the same objects"""
        if self.spec['t'] == 'sample':
            return False
        self.version = 1 - self.version
        new = self.build(self.version)
        keep = []
        done = False
        for old, n in zip(self.objects, new):
            if isinstance(old, list):
                if old and isinstance(old[0], set) and len(old) <= len(n):
                    for i, p in enumerate(old):
                        p.clear()
                        p.update(n[i])
                    old.extend(n[len(old):])
                else:
                    old[:] = n
                done = True
            elif isinstance(old, tuple) and old and isinstance(old[0], set) and len(old) == len(n):
                for p, q in zip(old, n):
                    p.clear()
                    p.update(q)
                done = True
            elif type(old).__name__ == 'ConfusionMatrix' and recount(old, n):
                done = True
                ctx.feature('matrix_edited')
            elif self.spec['t'] == 'matrices' and all(recount(old[k], n[k]) for k in old):
                done = True
                ctx.feature('matrix_edited')
            elif self.spec['t'] in ('ds', 'ds2') and how % 3 and refill(old, n, how % 3 == 2):
                done = True
                ctx.feature('edited_segmentation' if how % 3 == 2 else 'edited_coder')
            elif type(old).__name__ == 'Dataset':
                old.clear()
                for it, cs in n.items():
                    old[it] = cs
                old.coders = set(n.coders)
                done = True
            elif type(old).__name__ == 'dict':
                old.clear()
                old.update(n)
                done = True
            else:
                old = n
            keep.append(old)
        self.objects = tuple(keep)
        return done


BASELINE = None
SAMPLES_BEFORE = None


def baseline(A):
    ds = A.Dataset({'i': {'a': [2, 3, 6], 'b': [2, 2, 7], 'c': [1, 4, 6]}})
    out = {}
    for m in METRICS:
        out[m] = lambda m=m: A[m]([2, 3, 6], [2, 2, 7])
        out[m + '/ds'] = lambda m=m: A[m](ds)
    for m in COEFFS:
        out[m] = lambda m=m: A[m](ds)
    out['window'] = lambda: A.compute_window_size(ds)
    out['bed'] = lambda: A.boundary_edit_distance(({1}, set(), {2}, {1, 2}), (set(), {1}, {1}, {2}))
    return out


class History(object):
    def __init__(self, case, ctx, A):
        self.case, self.ctx, self.A = case, ctx, A
        self.args = [Args(A, s) for s in case['args']]
        self.memo = {}
        self.depth = 0
        self.log = []

    def options(self, c, triple=None, rounding=None, comparison=None):
        A = self.A
        o = dict(c['o'])
        if 'bf' in c:
            if c['fn'] in ('pk', 'window_diff') or c['bf'] != 'mass':
                o['boundary_format'] = getattr(A.BoundaryFormat, c['bf'])
        if 'weight' in o:
            base = (A.weight_a, A.weight_s, A.weight_t)
            o['weight'] = list(base) if o['weight'] == 'list' else base
        if 'version' in o:
            o['version'] = A.Average.macro
        if isinstance(o.get('fnc_round'), str):
            o['fnc_round'] = {'floor': math.floor, 'ceil': math.ceil}[o['fnc_round']]
        if o.get('fnc_compare') == 'S':
            o['fnc_compare'] = A.segmentation_similarity
        if triple:
            o['weight'] = triple(o.get('weight', (A.weight_a, A.weight_s_scale, A.weight_t_scale)))
        if rounding:
            o['fnc_round'] = rounding
        if comparison:
            o['fnc_compare'] = comparison(o.get('fnc_compare', A.boundary_similarity))
        return o

    def invoke(self, k, objects, **hooks):
        """-> (status, normalised result, raw result); arguments compared before and after"""
        c = self.case['calls'][k]
        fn = function(self.A, c['fn'])
        o = self.options(c, **hooks)
        objs = objects[:1] if c.get('first') else objects
        before = freeze(objs)
        ambient = context()
        obefore = dict((n, tuple(v) if isinstance(v, list) else v) for n, v in o.items())
        if c.get('kw'):
            st, v = self.ctx.outcome(fn, hypothesis=objs[0], reference=objs[1], **o)
        else:
            st, v = self.ctx.outcome(fn, *objs, **o)
        self.ctx.expect(freeze(objs) == before, '%s changed its arguments' % c['fn'], before=short(before), after=objs, options=c)
        self.ctx.expect(dict((n, tuple(x) if isinstance(x, list) else x) for n, x in o.items()) == obefore,
                        '%s changed its options' % c['fn'], options=c)
        self.ctx.expect(context() == ambient, '%s changed the decimal context of its caller from %s to %s' % (
            c['fn'], ambient, context()), options=c)
        if st == 'ok':
            return 'ok', norm(v, c.get('ordered')), v
        if isinstance(v, Callback):
            return 'callback', None, None
        return 'error', type(v).__name__, None

    def expected(self, k):
        """what call k gave the first time for the present contents of its arguments"""
        c = self.case['calls'][k]
        a = self.args[c['arg']]
        key = k, a.version
        if key not in self.memo:
            # on objects of its own
            self.memo[key] = self.invoke(k, a.build(a.version))[:2]
        return self.memo[key]

    def check(self, k, got, how):
        want = self.expected(k)
        c = self.case['calls'][k]
        self.ctx.expect(got[0] == want[0] and common.same(got[1], want[1]),
                        '%s gave %s, but before %s for equal arguments (%s)' % (c['fn'], short(got[:2], 300), short(want, 300), how),
                        call=c, arguments=self.args[c['arg']].objects, history=self.log[-12:])

    def hooks(self, k, other, raise_at):
        """callbacks that behave like the default ones but call into the package, or raise"""
        A, ctx = self.A, self.ctx
        c = self.case['calls'][k]
        count = [0]

        def inside():
            count[0] += 1
            if raise_at is not None:
                if count[0] > raise_at:
                    raise Callback()
                return
            if self.depth < 2 and count[0] <= 3:
                self.depth += 1
                try:
                    ctx.feature('nested_in_callback')
                    self.check(other, self.invoke(other, self.args[self.case['calls'][other]['arg']].objects), 'inside a callback')
                finally:
                    self.depth -= 1

        def triple(base):
            def wa(additions):
                inside()
                return base[0](additions)

            def ws(substitutions, max_s, min_s=1):
                inside()
                return base[1](substitutions, max_s, min_s)

            def wt(transpositions, max_n):
                inside()
                return base[2](transpositions, max_n)
            return (wa, ws, wt)

        def rounding(x):
            inside()
            return {'floor': math.floor, 'ceil': math.ceil}.get(c['o'].get('fnc_round'), round)(x)

        def comparison(base):
            def compare(*args, **kwargs):
                inside()
                return base(*args, **kwargs)
            return compare
        out = {}
        if c['fn'] in COEFFS:
            out = {'comparison': comparison} if raise_at is None or raise_at % 2 else {'triple': triple}
        elif c['fn'] in WINDOW or c['fn'] == 'compute_window_size':
            out = {'rounding': rounding}
        elif c['fn'] in METRICS:
            out = {'triple': triple}
        return out, count

    def step(self, kind, k, r):
        ctx, A = self.ctx, self.A
        c = self.case['calls'][k]
        a = self.args[c['arg']]
        self.log.append([kind, c['fn'], c['arg'], a.version])
        ctx.feature({'pair': 'arg_pair', 'typed': 'mutable_sets', 'ds': 'arg_dataset', 'ds2': 'arg_two_datasets', 'matrix': 'arg_matrix', 'matrices': 'arg_matrices',
                     'values': 'arg_values', 'strings': 'arg_strings', 'edits': 'arg_edits', 'sample': 'sample_as_argument'}[a.spec['t']])
        if c['fn'] == 'compute_window_size':
            ctx.feature('window_size')
        if a.spec.get('plain'):
            ctx.feature('plain_dictionary')
        if 'fnc_round' in c['o']:
            ctx.feature('other_rounding')
        if any(x is not c and x['fn'] == c['fn'] and x['arg'] == c['arg'] for x in self.case['calls']):
            ctx.feature('same_call_other_options')
        if a.spec['t'] == 'values' and len(a.spec['v'][0]) > 50:
            ctx.feature('many_values')
        ctx.feature('context_watched')
        if c['fn'] in COEFFS:
            ctx.feature('agreement')
        if c.get('ordered'):
            ctx.feature('conversion')
        if kind == 'call':
            ctx.feature('call')
            self.expected(k)
            self.check(k, self.invoke(k, a.objects), 'same objects')
            self.check(k, self.invoke(k, a.objects), 'same objects again')
            ctx.feature('repeat_same_object')
        elif kind == 'fresh':
            self.expected(k)
            self.check(k, self.invoke(k, a.build(a.version)), 'fresh equal objects')
            self.check(k, self.invoke(k, copy.deepcopy(a.objects) if a.spec['t'] in ('pair', 'typed', 'strings', 'values', 'edits')
                                      else a.build(a.version)), 'copies')
            ctx.feature('fresh_equal_object')
        elif kind == 'edit':
            # first use the objects, so that something stale could be kept
            same = [k] + [x for x, o in enumerate(self.case['calls']) if o['arg'] == c['arg'] and x != k][:r % 3]
            for x in same:
                self.check(x, self.invoke(x, a.objects), 'before an edit')
            if a.edit(r // 2, ctx):
                ctx.feature('argument_edited')
                if a.spec['t'] == 'pair' and all(len(x) == len(y) and sum(x) == sum(y) for x, y in zip(*a.spec['v'])) and \
                        a.spec['v'][0] != a.spec['v'][1]:
                    ctx.feature('edited_to_same_length_and_sum')
            for x in same:
                self.check(x, self.invoke(x, a.objects), 'after the argument was edited in place')
            if r % 2:
                a.edit(r // 6, ctx)
                ctx.feature('argument_edited_back')
                for x in reversed(same):
                    self.check(x, self.invoke(x, a.objects), 'after the argument was edited back')
        elif kind == 'vandal':
            got = self.invoke(k, a.objects)
            self.check(k, got, 'same objects')
            before = freeze(a.objects)
            vandalise(got[2])
            ctx.feature('result_edited')
            ctx.expect(freeze(a.objects) == before, 'editing the result of %s changed its arguments' % c['fn'], call=c)
            self.check(k, self.invoke(k, a.objects), 'after an earlier result was edited')
            self.check(k, self.invoke(k, a.build(a.version)), 'after an earlier result was edited, fresh objects')
        elif kind == 'fail':
            ctx.feature('failed_call')
            m = METRICS[r % len(METRICS)]
            for args, o in (([2, 3], [9, 9]), {}), (([2], [2]), {'boundary_format': 'nope'}), ((), {}), ((1, 2, 3), {}), \
                    (([1, 'x'], [2]), {}), (([2, 3], [2, 3]), {'no_such_option': 1}):
                before = freeze(args)
                ctx.outcome(A[m], *args, **o)
                ctx.expect(freeze(args) == before, 'a refused call of %s changed its arguments' % m)
            # refused agreement: incompletely coded, in every way round
            for d in ({'i': {'a': [1, 2]}, 'j': {'b': [3], 'c': [3]}},
                      {'i': {'a': [1, 2], 'b': [2, 1]}, 'j': {'a': [3]}}, {'i': {'a': [1, 2], 'b': [2, 1]}, 'j': {'b': [3]}},
                      {'i': {'a': [1, 2]}, 'j': {'a': [2, 1], 'b': [3]}}, {'i': {'b': [1, 2]}, 'j': {'a': [2, 1], 'b': [3]}},
                      {'i': {'a': [1, 2], 'b': [3]}, 'j': {'a': [3], 'c': [3]}}, {'i': {'a': [1, 2]}}, {'i': {}},
                      {'i': {'a': [1, 2], 'b': [9]}}):
                ctx.feature('refused_agreement')
                for d in (d, A.Dataset(d)):
                    before = freeze(d)
                    for n in COEFFS:
                        ctx.outcome(A[n], d)
                    ctx.expect(freeze(d) == before, 'a refused agreement coefficient changed its dataset', before=before, after=d)
            ctx.outcome(A.compute_window_size, 5)
            ctx.outcome(A.precision, A.ConfusionMatrix(), version='?')
            self.check(k, self.invoke(k, a.objects), 'after refused calls')
        elif kind in ('reenter', 'raise'):
            other = r % len(self.case['calls'])
            self.expected(k)
            self.expected(other)
            hooks, count = self.hooks(k, other, r % 5 if kind == 'raise' else None)
            got = self.invoke(k, a.objects, **hooks)
            if kind == 'raise':
                if got[0] != 'callback':
                    # a callback that never raised, or an argument that is refused anyway
                    if count[0] <= r % 5:
                        self.check(k, got, 'with callbacks')
                    else:
                        ctx.expect(got[0] != 'ok', '%s answered although a callback raised' % c['fn'], call=c, got=got[1])
                else:
                    ctx.feature('callback_raised')
            else:
                if count[0]:
                    for h in hooks:
                        ctx.feature({'triple': 'reentrant_weight', 'rounding': 'reentrant_round', 'comparison': 'reentrant_compare'}[h])
                self.check(k, got, 'with callbacks that evaluate something else')
            self.check(k, self.invoke(k, a.objects), 'after callbacks')
            self.check(other, self.invoke(other, self.args[self.case['calls'][other]['arg']].objects), 'after callbacks')


def run(case, ctx):
    global BASELINE, SAMPLES_BEFORE
    A = api()
    if BASELINE is None:
        SAMPLES_BEFORE = dict((n, freeze(A[n])) for n in core.SAMPLES)
        BASELINE = dict((n, norm(f())) for n, f in baseline(A).items())
    h = History(case, ctx, A)
    if case.get('context'):
        ctx.feature('context_of_the_caller')
        with decimal.localcontext() as own:
            own.prec, own.rounding = case['context']
            history(case, ctx, h)
    else:
        history(case, ctx, h)
    for n in core.SAMPLES:
        ctx.expect(freeze(A[n]) == SAMPLES_BEFORE[n], 'the bundled dataset %s changed' % n, history=h.log)
    ctx.feature('samples_unchanged')
    current = baseline(A)
    for n in ctx.rng.sample(sorted(current), 5):
        got = norm(current[n]())
        ctx.expect(common.same(got, BASELINE[n]), '%s with default options gave %s, at first %s' % (
            n, short(got, 200), short(BASELINE[n], 200)), history=h.log)
    ctx.feature('defaults_unchanged')


def history(case, ctx, h):
    for kind, k, r in case['steps']:
        h.step(kind, k, r)
    if len(case['steps']) > 3:
        ctx.nontrivial()
    # in the end every call is repeated once more, in the original version of its arguments too
    for k in range(len(case['calls'])):
        h.check(k, h.invoke(k, h.args[case['calls'][k]['arg']].objects), 'at the end')
