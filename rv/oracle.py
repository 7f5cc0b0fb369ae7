"""Reference models: what every evaluation function must return.

Written from the property statements, on exact rationals.  Nothing here imports
the code under test.  A segmentation is modelled either by its *boundary string*
(list of frozensets of boundary types, one per potential boundary) or, for
single-type texts, by its masses.
"""
from __future__ import division
import functools
from collections import Counter
from decimal import Decimal
from fractions import Fraction
from itertools import combinations, permutations


# ---------------------------------------------------------------- conversions
def masses_to_positions(masses):
    out = []
    for i, m in enumerate(masses):
        for _ in range(m):
            out.append(i + 1)
    return out


def positions_to_masses(positions):
    out = []
    prev = None
    for i, p in enumerate(positions):
        if i and p == prev:
            out[-1] += 1
        else:
            out.append(1)
        prev = p
    return out


def masses_to_string(masses):
    """Boundary string: unit boundary after every segment but the last."""
    n = sum(masses)
    ends = set()
    acc = 0
    for m in masses[:-1]:
        acc += m
        ends.add(acc - 1)
    return [frozenset([1]) if i in ends else frozenset() for i in range(n - 1)]


def masses_to_nltk(masses, symbol='1', other='0'):
    n = sum(masses)
    s = [other] * (n - 1)
    acc = 0
    for m in masses[:-1]:
        acc += m
        s[acc - 1] = symbol
    return ''.join(s)


# -------------------------------------------------- boundary edit distance
def differences(a, b):
    """set of (position, type, side) of boundaries present in one string only"""
    out = set()
    for i, (x, y) in enumerate(zip(a, b)):
        for t in x - y:
            out.add((i, t, 'a'))
        for t in y - x:
            out.add((i, t, 'b'))
    return out


def bed(a, b, n_t):
    """Transpositions (deterministic) and what remains per position."""
    n = len(a)
    side = {}                      # (position, type) -> side holding it
    for i, t, s in differences(a, b):
        side[(i, t)] = s
    rem_a = {}
    rem_b = {}
    for (i, t), s in side.items():
        rem_a.setdefault(i, set())
        rem_b.setdefault(i, set())
        (rem_a if s == 'a' else rem_b)[i].add(t)
    used = set()
    trans = []
    by_type = {}
    for (i, t) in side:
        by_type.setdefault(t, set()).add(i)
    positions = sorted(set(i for i, _ in side))
    for span in range(1, n_t):
        if span >= n:
            break
        for i in positions:
            j = i + span
            if j >= n:
                break
            cands = [t for t in (rem_a[i] | rem_b[i])
                     if (j, t) in side and side[(i, t)] != side[(j, t)]]
            for t in sorted(cands):
                if (i, t) in used or (j, t) in used:
                    continue
                if min(len(rem_a[i]), len(rem_b[i])) > 0 and \
                        min(len(rem_a[j]), len(rem_b[j])) > 0:
                    continue
                used.add((i, t))
                used.add((j, t))
                trans.append((i, j, t))
                for p in (i, j):
                    rem_a[p].discard(t)
                    rem_b[p].discard(t)
    residual = {}
    for p in positions:
        if rem_a[p] or rem_b[p]:
            residual[p] = (frozenset(rem_a[p]), frozenset(rem_b[p]))
    return {'trans': trans, 'residual': residual}


_pair_cache = {}


def pairings(xs, ys):
    """All optimal outcomes at one position.

    Returns (number of substitutions, minimal cost, list of outcomes); an outcome
    is (sorted substitutions, sorted additions).
    """
    key = (frozenset(xs), frozenset(ys))
    if key in _pair_cache:
        return _pair_cache[key]
    xs = sorted(xs)
    ys = sorted(ys)
    k = min(len(xs), len(ys))
    best = None
    outcomes = set()
    small, large, flip = (xs, ys, False) if len(xs) <= len(ys) else (ys, xs, True)
    for perm in permutations(large, k):
        cost = sum(abs(Fraction(p) - Fraction(q)) for p, q in zip(small, perm))
        if best is not None and cost > best:
            continue
        if flip:
            subs = tuple(sorted(zip(perm, small)))
            adds = tuple((t, 'a') for t in sorted(set(xs) - set(perm)))
        else:
            subs = tuple(sorted(zip(small, perm)))
            adds = tuple((t, 'b') for t in sorted(set(ys) - set(perm)))
        if best is None or cost < best:
            best = cost
            outcomes = set()
        outcomes.add((subs, adds))
    res = (k, best if best is not None else Fraction(0), sorted(outcomes))
    if len(_pair_cache) > 20000:
        _pair_cache.clear()
    _pair_cache[key] = res
    return res


def bed_summary(a, b, n_t):
    """Everything about the distance that does not depend on substitution ties."""
    d = bed(a, b, n_t)
    subs = 0
    cost = Fraction(0)
    adds_a = adds_b = 0
    for xs, ys in d['residual'].values():
        k, c, _ = pairings(xs, ys)
        subs += k
        cost += c
        adds_a += len(xs) - k
        adds_b += len(ys) - k
    return {'A': adds_a + adds_b, 'adds_a': adds_a, 'adds_b': adds_b, 'S': subs,
            'S_cost': cost, 'T': len(d['trans']),
            'T_span': sum(j - i for i, j, _ in d['trans']),
            'trans': sorted(d['trans']), 'residual': d['residual']}


def _num(x):
    return isinstance(x, (int, float, Decimal, Fraction)) and not isinstance(x, bool) and x == x


def explain_edits(a, b, n_t, additions, substitutions, transpositions, limit=20000):
    """None if the edits are an admissible answer (C05), else the complaint."""
    exp = bed(a, b, n_t)
    got_t = Counter(tuple(t) for t in transpositions)
    want_t = Counter(exp['trans'])
    if got_t != want_t:
        return 'near misses %r, expected %r' % (sorted(got_t.elements()), sorted(want_t.elements()))
    rem_s = Counter(tuple(s) for s in substitutions)
    rem_a = Counter(tuple(x) for x in additions)
    spots = []
    n_sub = 0
    cost = Fraction(0)
    for p, (xs, ys) in exp['residual'].items():
        k, c, outs = pairings(xs, ys)
        n_sub += k
        cost += c
        spots.append(outs)
    if sum(rem_s.values()) != n_sub:
        return '%d substitutions, expected %d' % (sum(rem_s.values()), n_sub)
    got_cost = sum((abs(Fraction(x) - Fraction(y)) * m for (x, y), m in rem_s.items()), Fraction(0))
    if got_cost != cost:
        return 'total substitution distance %s, expected %s' % (got_cost, cost)
    spots.sort(key=len)
    # unique outcomes first, then backtrack over ties
    fixed = [o[0] for o in spots if len(o) == 1]
    tied = [o for o in spots if len(o) > 1]
    for subs, adds in fixed:
        for s in subs:
            if rem_s[s] <= 0:
                return 'substitution %r missing' % (s,)
            rem_s[s] -= 1
        for x in adds:
            if rem_a[x] <= 0:
                return 'addition %r missing' % (x,)
            rem_a[x] -= 1
    budget = [limit]
    tied.sort()

    def search(k):
        budget[0] -= 1
        if budget[0] < 0:
            return True           # too many ties: necessary conditions only
        if k == len(tied):
            return not any(rem_s.values()) and not any(rem_a.values())
        for subs, adds in tied[k]:
            cs, ca = Counter(subs), Counter(adds)
            if all(rem_s[s] >= m for s, m in cs.items()) and \
               all(rem_a[x] >= m for x, m in ca.items()):
                rem_s.subtract(cs)
                rem_a.subtract(ca)
                if search(k + 1):
                    return True
                rem_s.update(cs)
                rem_a.update(ca)
        return False
    if not search(0):
        return 'additions/substitutions are not an optimal pairing of the remaining differences: ' \
               'additions %r substitutions %r for remaining %r' % (
                   sorted(additions), sorted(substitutions), sorted(exp['residual'].items())[:6])
    return None


def explain_conservation(a, b, additions, substitutions, transpositions, n_t=None):
    """None if every differing boundary is covered exactly once (C04)."""
    side = {}
    for i, t, s in differences(a, b):
        side[(i, t)] = s
    left = dict(side)
    for tr in transpositions:
        if len(tuple(tr)) != 3:
            return 'malformed transposition %r' % (tr,)
        i, j, t = tr
        if i == j or (i, t) not in side or (j, t) not in side:
            return 'transposition %r covers a boundary that does not differ' % (tuple(tr),)
        if side[(i, t)] == side[(j, t)]:
            return 'transposition %r joins two boundaries of the same side' % (tuple(tr),)
        for p in (i, j):
            if (p, t) not in left:
                return 'boundary of type %r at %r is covered by two transpositions' % (t, p)
            del left[(p, t)]
    want = Counter((t, s) for (p, t), s in left.items())
    got = Counter()
    for ad in additions:
        if len(tuple(ad)) != 2 or tuple(ad)[1] not in ('a', 'b'):
            return 'malformed addition %r' % (ad,)
        got[tuple(ad)] += 1
    spots = {}
    for (p, t), s in left.items():
        spots.setdefault(p, {'a': set(), 'b': set()})[s].add(t)
    for sub in substitutions:
        if len(tuple(sub)) != 2:
            return 'malformed substitution %r' % (sub,)
        x, y = sub
        got[(x, 'a')] += 1
        got[(y, 'b')] += 1
        if not any(x in v['a'] and y in v['b'] for v in spots.values()):
            return 'substitution %r occurs at no position' % (tuple(sub),)
    if got != want:
        lost = want - got
        surplus = got - want
        return 'differing boundaries not covered: %r; covered more often than they occur: %r' % (
            sorted(lost.elements()), sorted(surplus.elements()))
    return None


# ------------------------------------------------------------- similarities
def types_of(a, b):
    ts = set()
    for x in list(a) + list(b):
        ts |= set(x)
    return ts or {1}


def matches(a, b):
    return Counter(t for x, y in zip(a, b) for t in x & y)


def full_misses(a, b):
    return Counter(t for x, y in zip(a, b) for t in x ^ y)


class Weights(object):
    """A weight triple, in a form both the oracle and the library can evaluate.

    spec None: package defaults.  Otherwise a dict with rational strings:
      a: wa * #A (+ wa2 * #A^2), s: ws*#S + wc*cost + wr*(max-min), t: wt*#T + wp*span + wn*n_t
    Its 'pick' names, for each of the three, the package's own function instead: 'count' or 'scale'; 'form' is what
    kind of object carries the triple and what kind of callable the user's functions are.
    """

    def __init__(self, spec):
        self.spec = spec

    def mode(self, k):
        if self.spec is None:
            return ('count', 'scale', 'scale')[k]
        if self.spec.get('kind') == 'unweighted':
            return 'count'
        return self.spec.get('pick', ('user',) * 3)[k]

    def value_a(self, s):
        if self.mode(0) != 'user':
            return Fraction(s['A'])
        p = self.spec
        return Fraction(p['wa']) * s['A'] + Fraction(p.get('wa2', '0')) * s['A'] ** 2

    def value_s(self, s, mx, mn):
        if self.mode(1) == 'scale':
            return s['S_cost'] / (Fraction(mx) - Fraction(mn) + 1)
        if self.mode(1) == 'count':
            return Fraction(s['S'])
        p = self.spec
        return Fraction(p['ws']) * s['S'] + Fraction(p['wc']) * s['S_cost'] + \
            Fraction(p['wr']) * (Fraction(mx) - Fraction(mn))

    def value_t(self, s, n_t):
        if self.mode(2) == 'scale':
            return Fraction(s['T_span'], n_t)
        if self.mode(2) == 'count':
            return Fraction(s['T'])
        p = self.spec
        return Fraction(p['wt']) * s['T'] + Fraction(p['wp']) * s['T_span'] + Fraction(p['wn']) * n_t

    def value(self, summary, types, n_t):
        return self.value_a(summary) + self.value_s(summary, max(types), min(types)) + \
            self.value_t(summary, n_t)

    def library(self, api, log=None):
        """the triple of functions to hand to the library"""
        if self.spec is None:
            return None
        if self.spec.get('kind') == 'unweighted':
            return (api['weight_a'], api['weight_s'], api['weight_t'])
        kinds = {'dec': Decimal, 'float': float, 'int': int}
        na, ns, nt = [kinds[k] for k in self.spec.get('nums') or ['dec'] * 3]
        p = dict((k, {'a': na, 's': ns, 'c': ns, 'r': ns, 't': nt, 'p': nt, 'n': nt}[k[1]](v))
                 for k, v in self.spec.items() if k.startswith('w'))

        def user_weight_a(additions):
            if log is not None:
                log.append(('a', [tuple(x) for x in additions]))
            return p['wa'] * len(additions) + p.get('wa2', 0) * len(additions) ** 2

        def user_weight_s(substitutions, max_s, min_s=1):
            if log is not None:
                log.append(('s', [tuple(x) for x in substitutions], max_s, min_s))
            return p['ws'] * len(substitutions) + \
                p['wc'] * ns(sum(abs(x - y) for x, y in substitutions)) + \
                p['wr'] * ns(max_s - min_s)

        def user_weight_t(transpositions, max_n):
            if log is not None:
                log.append(('t', [tuple(x) for x in transpositions], max_n))
            return p['wt'] * len(transpositions) + \
                p['wp'] * sum(abs(x[0] - x[1]) for x in transpositions) + p['wn'] * max_n
        own = [user_weight_a, user_weight_s, user_weight_t]
        form = self.spec.get('form', 'tuple')
        if form == 'partial':
            own = [functools.partial(f) for f in own]
        elif form == 'objects':
            own = [Callable(f) for f in own]
        elif form == 'methods':
            own = [Callable(f).method for f in own]
        names = [{}, {'count': 'weight_s', 'scale': 'weight_s_scale'}, {'count': 'weight_t', 'scale': 'weight_t_scale'}]
        triple = [f if self.mode(k) == 'user' else api[names[k].get(self.mode(k), 'weight_a')] for k, f in enumerate(own)]
        return triple if form == 'list' else tuple(triple)


class Callable(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)

    def method(self, *args):
        return self.f(*args)


DEFAULT_WEIGHTS = Weights(None)


def boundary_similarity(a, b, n_t=2, weights=DEFAULT_WEIGHTS):
    """-> (numerator, denominator, value)"""
    s = bed_summary(a, b, n_t)
    den = s['A'] + s['S'] + s['T'] + sum(matches(a, b).values())
    num = den - weights.value(s, types_of(a, b), n_t)
    return num, Fraction(den), (num / den if den else Fraction(1))


def potential_boundaries(a, b):
    return len(a) * len(types_of(a, b))


def segmentation_similarity(a, b, n_t=2, weights=DEFAULT_WEIGHTS):
    s = bed_summary(a, b, n_t)
    den = potential_boundaries(a, b)
    num = den - weights.value(s, types_of(a, b), n_t)
    return num, Fraction(den), (num / den if den else Fraction(1))


def statistics(a, b, n_t=2, weights=DEFAULT_WEIGHTS):
    s = bed_summary(a, b, n_t)
    ts = types_of(a, b)
    return {'matches': matches(a, b), 'full_misses': full_misses(a, b),
            'boundaries_all': sum(len(x) for x in a) + sum(len(x) for x in b),
            'pbs': potential_boundaries(a, b), 'boundary_types': ts,
            'count_edits': weights.value(s, ts, n_t)}


# ------------------------------------------------------------------- windows
def window_size(mass_list, rounding='even'):
    avg = Fraction(sum(mass_list), len(mass_list)) / 2
    return max(2, apply_round(rounding, avg))


def apply_round(name, x):
    import math
    if name == 'even':
        k = round(x)
    elif name in ('floor', 'floor_object'):
        k = math.floor(x)
    elif name in ('ceil', 'ceil_partial'):
        k = math.ceil(x)
    elif name in ('half_up_float', 'half_up_decimal'):
        k = math.floor(x + Fraction(1, 2))
    elif name == 'plus3':
        k = math.floor(x) + 3
    elif name == 'const7':
        k = 7
    elif name == 'const1':
        k = 1
    else:
        raise KeyError(name)
    return int(k)


def library_round(name):
    """the rounding function handed to the library (receives a Decimal)"""
    import math
    return {'even': None, 'floor': math.floor, 'ceil': math.ceil,
            'plus3': lambda x: math.floor(x) + 3, 'const7': lambda x: 7,
            'const1': lambda x: 1, 'floor_object': Callable(math.floor), 'ceil_partial': functools.partial(math.ceil),
            'half_up_float': lambda x: float(math.floor(2 * x + 1) // 2),
            'half_up_decimal': lambda x: Decimal(math.floor(2 * x + 1) // 2)}[name]


def seg_index(masses):
    out = []
    for i, m in enumerate(masses):
        out.extend([i] * m)
    return out


def pk(hyp, ref, k):
    """hyp, ref masses -> (differences, windows)"""
    h, r = seg_index(hyp), seg_index(ref)
    n = len(r)
    diff = 0
    for i in range(0, n - k):
        if (h[i] == h[i + k]) != (r[i] == r[i + k]):
            diff += 1
    return diff, max(0, n - k)


def window_diff(hyp, ref, k, lamprier=False):
    """-> (differing windows, denominator, value)"""
    h, r = seg_index(hyp), seg_index(ref)
    n = len(r)
    if lamprier:
        # k phantom units on each side; they form a run of their own, belonging to
        # no segment, so the text is bounded by a boundary on each side
        h = [-1] * k + h + [-2] * k
        r = [-1] * k + r + [-2] * k

    def prefix(x):
        acc = [0]
        for i in range(len(x) - 1):
            acc.append(acc[-1] + (x[i] != x[i + 1]))
        return acc
    ph, pr = prefix(h), prefix(r)
    diff = 0
    for i in range(0, len(r) - k):
        if ph[i + k] - ph[i] != pr[i + k] - pr[i]:
            diff += 1
    den = n + k + 1 if lamprier else n - k
    windows = len(r) - k
    return diff, den, (Fraction(diff, den) if windows > 0 else Fraction(0))


# --------------------------------------------------------------- ML statistics
def ml_classes(cells):
    out = set()
    for p, a in cells:
        out.add(p)
        out.add(a)
    return out


def ml_parts(cells, c, which, beta=Fraction(1)):
    tp = cells.get((c, c), Fraction(0))
    if which == 'precision':
        return tp, sum((v for (p, a), v in cells.items() if p == c), Fraction(0))
    if which == 'recall':
        return tp, sum((v for (p, a), v in cells.items() if a == c), Fraction(0))
    pr = ml_value(cells, c, 'precision')
    re = ml_value(cells, c, 'recall')
    return (1 + beta ** 2) * pr * re, beta ** 2 * pr + re


def ml_value(cells, c, which, beta=Fraction(1)):
    num, den = ml_parts(cells, c, which, beta)
    return num / den if num else Fraction(0)


def ml_average(cells, classes, which, version, beta=Fraction(1)):
    if version == 'micro':
        num = den = Fraction(0)
        for c in classes:
            n, d = ml_parts(cells, c, which, beta)
            num += n
            den += d
        return num / den if num else Fraction(0)
    if not classes:
        return Fraction(0)
    return sum((ml_value(cells, c, which, beta) for c in classes), Fraction(0)) / len(classes)


# ------------------------------------------------------------------ agreement
def agreement(strings, compare='B', n_t=2, weights=DEFAULT_WEIGHTS):
    """strings: {item: {coder: boundary string}} (fully coded, >= 2 coders).

    -> dict with A (None if 0/0), E_pi, E_kappa and the per-pair parts.
    """
    fn = boundary_similarity if compare == 'B' else segmentation_similarity
    items = list(strings)
    coders = sorted(strings[items[0]])
    nums, dens, pbs_all = [], [], []
    shares = []
    per = dict((c, [0, 0]) for c in coders)
    info = dict((c, []) for c in coders)
    for m, n in combinations(coders, 2):
        for it in items:
            a, b = strings[it][m], strings[it][n]
            num, den, _ = fn(a, b, n_t, weights)
            nums.append(num)
            dens.append(den)
            pbs = potential_boundaries(a, b)
            pbs_all.append(pbs)
            for c, s in ((m, a), (n, b)):
                k = sum(len(x) for x in s)
                per[c][0] += k
                per[c][1] += pbs
                info[c].append((k, pbs))
                shares.append(Fraction(k, pbs))
    A = sum(nums) / sum(dens) if sum(dens) else None
    E_pi = (sum(shares) / len(shares)) ** 2
    prods = [Fraction(*per[m]) * Fraction(*per[n]) for m, n in combinations(coders, 2)]
    E_k = sum(prods) / len(prods)
    return {'A': A, 'E_pi': E_pi, 'E_kappa': E_k, 'nums': nums, 'dens': dens,
            'pbs': pbs_all, 'info': info}


# ----------------------------------------------------------------- comparison
def close(got, want, tol=None):
    """got (int/float/Decimal from the library) against an exact Fraction."""
    if not _num(got):
        return False
    if isinstance(got, float):
        if got in (float('inf'), float('-inf')):
            return False
        t = tol or Fraction(1, 10 ** 11)
    else:
        if isinstance(got, Decimal) and not got.is_finite():
            return False
        t = tol or Fraction(1, 10 ** 20)
    g = Fraction(got)
    want = Fraction(want)
    return abs(g - want) <= t * max(1, abs(want))
