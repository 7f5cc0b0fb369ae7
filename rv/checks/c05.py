"""C05: which near misses and substitutions are recognised."""
from rv import gen, oracle
from rv.core import api
from rv.checks import common

INTERPRETERS = 'both'
SHARING = True
REQUIRED = common.STRING_FEATURES + ['competing_near_misses', 'blocked_by_substitutions', 'several_pairings']
RULE = ('all pairs of boundary strings in small scopes plus random pairs (several type sets, near copies, chains of '
        'near misses, dense/sparse, long), n_t from 1 to beyond the text; the edits are compared with a reference '
        'model of the recognition policy; non-trivial: the strings differ')
ASSUMPTIONS = ['at most four boundary types of each side per position, up to seven where the other side has few: the pairing search of the code is factorial']


def chain(rng):
    """runs of near misses competing for the same boundaries"""
    n = rng.randint(4, 40)
    types = rng.choice([[1], [1, 2], [1, 2, 3]])
    a = [[] for _ in range(n)]
    b = [[] for _ in range(n)]
    i = rng.randint(0, 2)
    while i < n:
        t = rng.choice(types)
        (a if rng.random() < 0.5 else b)[i].append(t)
        if rng.random() < 0.25:
            t2 = rng.choice(types)
            other = a if rng.random() < 0.5 else b
            if t2 not in a[i] and t2 not in b[i]:
                other[i].append(t2)
        i += rng.choice([1, 1, 2, 2, 3, 4, 6])
    return [sorted(x) for x in a], [sorted(x) for x in b]


def cases(ctx):
    for a, b, n_t in common.string_stream(ctx, 900, 24000):
        yield {'a': a, 'b': b, 'n_t': n_t}
    for _ in range(ctx.scale(900, 24000)):
        a, b = chain(ctx.rng)
        yield {'a': a, 'b': b, 'n_t': gen.n_t(ctx.rng, len(a))}


def run(case, ctx):
    A = api()
    a, b, n_t = gen.as_sets(case['a']), gen.as_sets(case['b']), case['n_t']
    r = ctx.call(A.boundary_edit_distance, a, b, n_t=n_t)
    s = oracle.bed_summary(a, b, n_t)
    common.describe_string_pair(ctx, a, b, n_t, s)
    # situations: candidates passed over
    used = set()
    for i, j, t in s['trans']:
        used.add((i, t))
        used.add((j, t))
    side = dict(((p, t), x) for p, t, x in oracle.differences(a, b))
    lost = [(p, t) for (p, t) in side if (p, t) not in used and
            any(((p + d, t) in side and side[(p + d, t)] != side[(p, t)]) for d in range(1 - n_t, n_t) if d)]
    if any((p + d, t) in used for p, t in lost for d in range(1 - n_t, n_t) if d):
        ctx.feature('competing_near_misses')
    if any((p + d, t) in lost for p, t in lost for d in range(1 - n_t, n_t) if d and
           (p + d, t) in side and side[(p + d, t)] != side[(p, t)]):
        ctx.feature('blocked_by_substitutions')
    if any(len(oracle.pairings(x, y)[2]) > 1 for x, y in s['residual'].values()):
        ctx.feature('several_pairings')
    msg = oracle.explain_edits(a, b, n_t, *r)
    ctx.expect(msg is None, 'edits: %s' % msg, a=a, b=b, n_t=n_t, result=r)
    for i, j, t in r[2]:
        ctx.expect(0 < j - i <= n_t - 1, 'transposition %r spans more than allowed' % ((i, j, t),), n_t=n_t)
    # the same edits are what the statistics report
    st = ctx.call(A.boundary_statistics, a, b, n_t=n_t, boundary_format=A.BoundaryFormat.sets)
    msg = oracle.explain_edits(a, b, n_t, st['additions'], st['substitutions'], st['transpositions'])
    ctx.expect(msg is None, 'edits in the statistics: %s' % msg, a=a, b=b, n_t=n_t, result=st)
