"""Workload generators.  Everything generated is JSON-able; runs materialise it."""
from itertools import product
from rv import kinds


def compositions(n):
    """all mass sequences of an n-unit text"""
    for bits in range(1 << (n - 1)):
        out, run = [], 1
        for i in range(n - 1):
            if bits >> i & 1:
                out.append(run)
                run = 1
            else:
                run += 1
        out.append(run)
        yield out


def masses_from_ends(n, ends):
    out, prev = [], 0
    for e in sorted(ends):
        out.append(e - prev)
        prev = e
    out.append(n - prev)
    return out


def ends_of(masses):
    out, acc = [], 0
    for m in masses[:-1]:
        acc += m
        out.append(acc)
    return out


def pick_n(rng, big=True):
    r = rng.random()
    if r < 0.35:
        return rng.randint(2, 9)
    if r < 0.80:
        return rng.randint(10, 40)
    if r < 0.96 or not big:
        return rng.randint(41, 160)
    if r < 0.995:
        return rng.randint(161, 700)
    return rng.randint(701, 2500)


def masses(rng, n):
    """one segmentation of n units"""
    if n < 2:
        return [n]
    r = rng.random()
    if r < 0.05:
        return [n]
    if r < 0.09:
        return [1] * n
    if r < 0.17:                       # one boundary somewhere, often at the edge
        e = rng.choice([1, n - 1, rng.randint(1, n - 1)])
        return masses_from_ends(n, [e])
    if r < 0.25:                       # regular
        m = rng.randint(1, max(1, n // 2))
        return masses_from_ends(n, range(m, n, m))
    if r < 0.33:                       # one very long segment, others short
        ends = [e for e in range(1, n) if rng.random() < 0.5]
        cut = rng.randint(1, n)
        keep = [e for e in ends if (e < cut) == (rng.random() < 0.9)]
        return masses_from_ends(n, keep)
    density = rng.choice([0.03, 0.08, 0.15, 0.25, 0.4, 0.5, 0.7, 0.9])
    return masses_from_ends(n, [e for e in range(1, n) if rng.random() < density])


def jitter(rng, m, reach=2):
    """a second coder's version of the same text: boundaries moved, dropped, added"""
    n = sum(m)
    ends = set()
    p_move, p_drop = rng.choice([(0.3, 0.1), (0.6, 0.05), (0.9, 0.0), (0.1, 0.3), (0.05, 0.0)])
    for e in ends_of(m):
        if rng.random() < p_drop:
            continue
        if rng.random() < p_move:
            e = min(n - 1, max(1, e + rng.randint(-reach, reach)))
        ends.add(e)
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        if n > 1:
            ends.add(rng.randint(1, n - 1))
    return masses_from_ends(n, ends)


def mass_pair(rng, n=None, big=True):
    if n is None:
        n = pick_n(rng, big)
    a = masses(rng, n)
    r = rng.random()
    if r < 0.55:
        b = jitter(rng, a, rng.choice([1, 1, 2, 3, 4, 8]))
    elif r < 0.62:
        b = list(a)
    elif r < 0.68:                     # everything shifted by the same offset
        k = rng.choice([1, -1, 2, -2, 3])
        b = masses_from_ends(n, set(min(n - 1, max(1, e + k)) for e in ends_of(a)))
    elif r < 0.72:
        b = list(reversed(a))
    elif r < 0.76:
        b = [n]
    else:
        b = masses(rng, n)
    if rng.random() < 0.3:
        a, b = b, a
    return a, b


def huge_pair(rng):
    """more units than sixteen bits can count"""
    n = rng.randint(65540, 68000)
    density = rng.choice([0.1, 0.3, 0.3, 0.3, 1.0])
    a = masses_from_ends(n, [e for e in range(1, n) if density == 1 or rng.random() < density])
    b = jitter(rng, a)
    # the far end differs like the beginning, 65536 units later
    again = density < 1 or rng.random() < 0.3
    a, b = [masses_from_ends(n, set(e for e in x if e < 65536) | set(65536 + e for e in x if 65536 + e < n)) if again else
            masses_from_ends(n, x) for x in (ends_of(a), set(ends_of(b)) ^ set([n - 1]))]
    return (a, b) if rng.random() < 0.5 else (b, a)


TYPE_SETS = [[1], [1, 2], [1, 2], [1, 2, 3], [1, 2, 3, 4], [2, 5], [0, 3, 9], [-2, 5], [-3, -1, 0, 4],
             [7], [300, 301, 1000], [1, 257], [10 ** 12, 10 ** 12 + 1], [3, 4, 5, 6],
             [1, 20001, 20003], [-5000, 5000], [1, 2, 70000, 10 ** 6], [5, 10 ** 9]]


def string(rng, n, types, density=None):
    if density is None:
        density = rng.choice([0.05, 0.15, 0.3, 0.5, 0.8, 1.0])
    return [sorted(t for t in types if rng.random() < density) for _ in range(n)]


def cap(s, k=4):
    return [x[:k] for x in s]


def mutate_string(rng, a, types):
    """a near copy: boundaries moved, retyped, dropped, added"""
    n = len(a)
    b = [set(x) for x in a]
    intensity = rng.choice([0.1, 0.3, 0.6, 1.0])
    for i in range(n):
        for t in list(a[i]):
            if rng.random() > intensity:
                continue
            r = rng.random()
            if r < 0.45:
                j = min(n - 1, max(0, i + rng.choice([-1, 1, -1, 1, -2, 2, 3, -3, 5])))
                b[i].discard(t)
                b[j].add(t)
            elif r < 0.75:
                b[i].discard(t)
                b[i].add(rng.choice(types))
            elif r < 0.9:
                b[i].discard(t)
            else:
                b[i].add(rng.choice(types))
    return [sorted(x) for x in b]


def string_pair(rng, n=None):
    """-> (a, b) lists of lists of types (at most four types in a position, seven in crowded ones)"""
    if n is None and rng.random() < 0.03:
        return crowded_pair(rng)
    if n is None and rng.random() < 0.012:
        return many_types_pair(rng)
    if n is None:
        r = rng.random()
        if r > 0.985:
            # long enough for blocks of 256 and 512 positions
            return long_pair(rng)
        n = rng.randint(1, 8) if r < 0.45 else rng.randint(9, 40) if r < 0.93 else rng.randint(41, 250)
    types = rng.choice(TYPE_SETS)
    if rng.random() < 0.05:
        types = [1, 2, 3, 4, 5]
    if len(types) > 4 and n > 12:
        types = types[:4]
    a = string(rng, n, types)
    r = rng.random()
    if r < 0.6:
        b = mutate_string(rng, a, types)
    elif r < 0.66:
        b = [list(x) for x in a]
    elif r < 0.72:
        b = [[] for _ in a]
    else:
        b = string(rng, n, types)
    if rng.random() < 0.3:
        a, b = b, a
    return cap(a), cap(b)


def crowded_pair(rng):
    """five and more types in a position; the library tries |a|! * |b|! pairings of them"""
    types = sorted(rng.sample(rng.choice([range(1, 10), range(-4, 12), [1, 2, 4, 8, 16, 32, 64, 128, 256, 1000]]), 9))
    n = rng.randint(1, 4)
    a, b = [[] for _ in range(n)], [[] for _ in range(n)]
    for i in rng.sample(range(n), min(n, 2)):
        k, l = rng.choice([(5, 0), (5, 1), (5, 2), (5, 3), (5, 4), (6, 0), (6, 1), (6, 2), (6, 3), (7, 0), (7, 1)])
        x = rng.sample(types, k + l)
        both = [t for t in types if t not in x and rng.random() < 0.2]
        a[i], b[i] = sorted(x[:k] + both), sorted(x[k:] + both)
        if rng.random() < 0.5:
            a[i], b[i] = b[i], a[i]
    return a, b


def many_types_pair(rng):
    """dozens of boundary types in one text, few of them at any one position"""
    k = rng.randint(20, 90)
    types = sorted(rng.sample(rng.choice([range(1, k + 1), range(-k, k), range(1, 5000)]), k))
    n = rng.randint(k // 2 + 10, k + 20)
    a = [sorted(rng.sample(types, rng.choice([0, 1, 1, 2, 3]))) for _ in range(n)]
    b = mutate_string(rng, a, types) if rng.random() < 0.7 else [sorted(rng.sample(types, rng.choice([0, 1, 2]))) for _ in range(n)]
    return cap(a), cap(b)


def long_pair(rng):
    n = rng.choice([rng.randint(257, 600), rng.randint(513, 1100), rng.randint(1025, 1600)])
    types = rng.choice([[1], [1, 2], [1, 2, 9]])
    a = string(rng, n, types, rng.choice([0.05, 0.2, 0.5]))
    b = mutate_string(rng, a, types) if rng.random() < 0.7 else string(rng, n, types, rng.choice([0.05, 0.2, 0.5]))
    return cap(a), cap(b)


def typed_pair_from_masses(rng):
    a, b = mass_pair(rng, big=False)
    from rv.oracle import masses_to_string
    return [sorted(x) for x in masses_to_string(a)], [sorted(x) for x in masses_to_string(b)]


def any_string_pair(rng):
    return string_pair(rng) if rng.random() < 0.7 else typed_pair_from_masses(rng)


def n_t(rng, n=None):
    r = rng.random()
    if r < 0.35:
        return 2
    if r < 0.5:
        return 1
    if r < 0.9:
        return rng.choice([3, 3, 4, 5, 6, 8, 10, 12])
    if n and n < 120 and r > 0.985:
        return rng.choice([257, 300, 1001])
    return rng.choice([20, 50, (n or 10) + 3, (n or 10)]) if not n or n < 300 else 20


def all_strings(n, subsets):
    for s in product(subsets, repeat=n):
        yield [list(x) for x in s]


def weights(rng, additive=False):
    """None (defaults), the unweighted triple, or a user triple (see oracle.Weights)"""
    r = rng.random()
    if r < 0.45:
        return None
    if r < 0.6:
        return {'kind': 'unweighted'}
    # what kind of numbers each of the three functions returns; floats are sums of halves, so exact
    nums = rng.choice([['dec'] * 3, ['dec'] * 3, ['dec'] * 3, ['int'] * 3, ['float'] * 3, ['int', 'float', 'int'],
                       ['float', 'int', 'float'], ['int', 'dec', 'int'], ['dec', 'int', 'dec'], ['int', 'int', 'float']])
    values = {'dec': ['0', '1', '0.5', '0.25', '2', '3', '0.1', '7'], 'int': ['0', '1', '2', '3', '7', '1'],
              'float': ['0', '1', '0.5', '0.25', '2', '3', '0.125', '7']}
    qs = [lambda k=k: rng.choice(values[k]) for k in nums]
    a, s, t = qs
    w = {'kind': 'user', 'wa': a(), 'ws': s(), 'wc': s(), 'wr': s(), 'wt': t(), 'wp': t(), 'wn': t(), 'wa2': '0', 'nums': nums}
    if rng.random() < 0.35:
        # some of the package's own functions among the user's; one kind alone
        w['pick'] = [rng.choice(['count', 'user']), rng.choice(['count', 'scale', 'user']), rng.choice(['count', 'scale', 'user'])]
        if 'scale' in w['pick'] and 'float' in nums:
            # decimals and floats do not add up
            w['pick'] = [p if n != 'float' else 'count' for p, n in zip(w['pick'], nums)]
    if rng.random() < 0.2:
        w['form'] = rng.choice(['list', 'partial', 'objects', 'methods'])
    if additive:
        w['wr'] = w['wn'] = '0'
    elif rng.random() < 0.3:
        w['wa2'] = '1' if nums[0] == 'int' else '0.125'
    return w


# ---------------------------------------------------------------- encodings
LABELS = ['std', 'zero', 'str', 'words', 'offset', 'big', 'neg', 'float', 'perm', 'mixed', 'decimal', 'alike', 'typed', 'long',
          'close', 'tuple']


def encoding(rng, formats=('mass', 'position', 'nltk', 'sets')):
    f = rng.choice(list(formats))
    e = {'f': f, 'c': container(rng)}
    if f == 'position':
        e['labels'] = rng.choice(LABELS)
    if f == 'sets':
        e['set'] = rng.choice(['set', 'frozenset'])
    return e


def fresh_int(k):
    # an int object of its own, not a cached or interned one
    return int(str(k))


def labels_for(kind, count):
    if kind == 'std':
        return [i + 1 for i in range(count)]
    if kind == 'zero':
        return [i for i in range(count)]
    if kind == 'str':
        return ['s%d' % i for i in range(count)]
    if kind == 'words':
        # different lengths, the empty string among them
        return ['' if i == 0 else 'x' * (i % 5) + str(i) for i in range(count)]
    if kind == 'offset':
        return [1000 + i for i in range(count)]
    if kind == 'big':
        return [10 ** 20 - i * 7 for i in range(count)]
    if kind == 'neg':
        return [-i for i in range(count)]
    if kind == 'float':
        return [i / 2.0 for i in range(count)]
    if kind == 'perm':
        return [(i * 7919 + 13) % 100003 for i in range(count)]
    if kind == 'mixed':
        return [('L%d' % i if i % 2 else i) for i in range(count)]
    if kind == 'decimal':
        from decimal import Decimal
        return [Decimal(i) / 4 for i in range(count)]
    if kind == 'alike':
        # strings that differ in case or blanks only
        return [('a%d', 'A%d', ' a%d', 'a%d ')[i % 4] % (i // 4) for i in range(count)]
    if kind == 'typed':
        # a number next to the string that looks like it
        return [str(i // 2) if i % 2 else i // 2 for i in range(count)]
    if kind == 'long':
        return ['x' * 70 + str(i) for i in range(count)]
    if kind == 'close':
        return [1.0 + i * 1e-12 for i in range(count)]
    if kind == 'tuple':
        return [('section', i // 3, i % 3) for i in range(count)]
    if kind == 'lists':
        return [['section', i] for i in range(count)]
    if kind == 'dictionaries':
        return [{'section': i} for i in range(count)]
    raise KeyError(kind)


def fresh(x):
    """an equal object that is not the same object"""
    if isinstance(x, int):
        return int(str(x))
    if isinstance(x, str):
        return ''.join(list(x))
    if isinstance(x, float):
        return float(repr(x))
    if isinstance(x, tuple):
        return tuple([fresh(y) for y in x])
    if isinstance(x, list):
        return [fresh(y) for y in x]
    if isinstance(x, dict):
        return dict(x)
    return type(x)(str(x))


# When not None, equal elements and equal whole sequences of one case are the same object.
SHARED = None
SHARED_USES = [0]


def shared(seq):
    """seq, or with sharing switched on an equal one made of objects used before in this case"""
    if SHARED is None or isinstance(seq, str):
        return seq

    def key(x):
        return (type(x), tuple(sorted(x))) if isinstance(x, (set, frozenset)) else (type(x), x)

    def intern(k, x):
        if k in SHARED:
            SHARED_USES[0] += 1
            return SHARED[k]
        SHARED[k] = x
        return x
    parts = [intern(key(x), x) for x in seq]
    return intern((type(seq), 'whole', tuple(key(x) for x in seq)), type(seq)(parts))


def container(rng):
    return rng.choice(['list', 'tuple'] * 4 + ['listof', 'tupleof'])


def encode(masses, e):
    """materialise a segmentation in an encoding; every element a fresh object (unless SHARED)"""
    return shared(encode_fresh(masses, e))


def encode_fresh(masses, e):
    from rv import oracle
    seq = kinds.CONTAINERS[e.get('c', 'list')]
    f = e['f']
    if f == 'mass':
        return seq(int(str(m)) for m in masses)
    if f == 'position':
        labs = labels_for(e.get('labels', 'std'), len(masses))
        out = []
        for m, l in zip(masses, labs):
            out.extend(fresh(l) for _ in range(m))
        return seq(out)
    if f == 'nltk':
        return oracle.masses_to_nltk(masses)
    if f == 'sets':
        s = set if e.get('set') == 'set' else frozenset
        return seq(s(x) for x in oracle.masses_to_string(masses))
    raise KeyError(f)


def boundary_format(api, e):
    return getattr(api.BoundaryFormat, e['f'])


def as_sets(s, container='tuple', kind='frozenset'):
    k = frozenset if kind == 'frozenset' else set
    c = kinds.CONTAINERS[container]
    return shared(c(k(int(str(t)) for t in x) for x in s))


# ------------------------------------------------------------------ datasets
def dataset(rng, items=None, coders=None, nmax=30, min_units=2, full=True, many=True):
    """{'item': {'coder': masses}}, related segmentations of each item"""
    items = items if items is not None else rng.choice([1, 1, 2, 2, 3, 4, 6])
    coders = coders if coders is not None else rng.choice([2, 2, 3, 3, 4, 5])
    if many and rng.random() < 0.06:
        # more coders, or more items, than a hand
        r = rng.random()
        if r < 0.08:
            items, coders, nmax = 1, rng.randint(14, 40), min(nmax, 10)
        elif r < 0.16:
            items, coders, nmax = rng.choice([rng.randint(40, 150), rng.randint(260, 400)]), 2, min(nmax, 9)
        elif r < 0.24:
            nmax = rng.randint(300, 1500)
            items, coders, min_units = 1, 2, nmax - 40
        elif r < 0.6:
            items, coders, nmax = rng.choice([1, 1, 2]), rng.randint(6, 13), min(nmax, 14)
        else:
            items, coders, nmax = rng.randint(10, 28), rng.choice([2, 3]), min(nmax, 14)
    names = ['c%d' % i for i in range(coders)]
    style = rng.random()
    if style < 0.2:
        names = ['Zoe', 'anna', u'\u00c9ric', '10', '9'][:coders] + names[5:]
    elif style < 0.3:
        names = ['x' * (i + 1) for i in range(coders)]
    rng.shuffle(names)
    out = {}
    for i in range(items):
        n = rng.randint(min_units, nmax)
        base = masses(rng, n)
        who = list(names)
        rng.shuffle(who)
        if not full and rng.random() < 0.6:
            who = who[:rng.randint(1, len(who))]
        item = {}
        for c in who:
            r = rng.random()
            item[c] = list(base) if r < 0.15 else jitter(rng, base, 2) if r < 0.8 else masses(rng, n)
        name = 'item%d' % i if rng.random() < 0.8 else u'k\u00f6 %d,x' % i if rng.random() < 0.5 else 'i%d' % i
        out[name] = item
    return out


def encode_dataset(api, ds, e, as_dict=False, cls=None):
    data = dict((it, dict((c, encode(m, e)) for c, m in cs.items())) for it, cs in ds.items())
    if as_dict:
        return data
    return (cls or api.Dataset)(data, boundary_format=boundary_format(api, e))


NAMES = ['plain', 'ints', 'negative', 'falsy', 'mixed', 'tuples', 'alike', 'composed', 'surrogates', 'repeated']


class Names(object):
    """the labels of items or coders under a naming scheme: name of the case -> label"""

    def __init__(self, scheme):
        self.scheme = scheme
        self.known = {}

    def __call__(self, name):
        if self.scheme == 'plain':
            return name
        if name not in self.known:
            self.known[name] = self.make(len(self.known))
        return self.known[name]

    def make(self, k):
        s = self.scheme
        if s == 'ints':
            return k
        if s == 'negative':
            return k - 2
        if s == 'falsy':
            return ['', 0, 'x'][k] if k < 3 else k
        if s == 'mixed':
            return k // 2 if k % 2 else str(k // 2)
        if s == 'tuples':
            return ('t', k) if k else ()
        if s == 'alike':
            return ['a', 'A', ' a', 'a ', u'a\xa0', 'a\n'][k] if k < 6 else 'a%d' % k
        if s == 'composed':
            return (u'\xe9%d' if k % 2 else u'e\u0301%d') % (k // 2)
        if s == 'surrogates':
            return u'n\udcff%d' % k
        return 'x' * k


def agreeable(ds):
    """at least one boundary somewhere, and not every potential boundary placed by everyone"""
    segs = [x for cs in ds.values() for x in cs.values()]
    return any(len(x) > 1 for x in segs) and any(len(x) < sum(x) for x in segs)
