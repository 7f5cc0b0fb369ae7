"""C04: conservation of boundaries in boundary edit distance."""
from rv import gen, oracle
from rv.core import api, short
from rv.checks import common

INTERPRETERS = 'both'
SHARING = True
REQUIRED = common.STRING_FEATURES + ['nested_events']
RULE = ('all pairs of boundary strings in small scopes plus random pairs (several type sets, near copies, '
        'dense/sparse, long), each also swapped, and every distance computed inside a metric call; '
        'non-trivial: the strings differ')
ASSUMPTIONS = ['at most four boundary types of each side per position, up to seven where the other side has few: the pairing search of the code is factorial']


def cases(ctx):
    for k, (a, b, n_t) in enumerate(common.string_stream(ctx, 900, 22000)):
        yield {'a': a, 'b': b, 'n_t': n_t, 'c': ('tupleof', 'listof')[k % 2] if k % 11 == 4 else 'list' if k % 3 == 0 else 'tuple',
               's': 'set' if k % 5 == 0 else 'frozenset', 'nested': k % 7 == 0,
               'kw': k % 2}


def judge(ctx, a, b, n_t, result, where):
    ctx.expect(isinstance(result, tuple) and len(result) == 3, '%s returned %s' % (where, short(result)))
    msg = oracle.explain_conservation(a, b, *result)
    ctx.expect(msg is None, '%s: %s' % (where, msg), a=a, b=b, n_t=n_t, result=result)
    for i, j, t in result[2]:
        ctx.expect(i in range(len(a)) and j in range(len(a)), 'transposition outside the string', result=result)


def run(case, ctx):
    A = api()
    a = gen.as_sets(case['a'], case['c'], case['s'])
    b = gen.as_sets(case['b'], case['c'], case['s'])
    n_t = case['n_t']
    fn = A.boundary_edit_distance
    if n_t == 2 and case['kw']:
        r = ctx.call(fn, a, b)
    elif case['kw']:
        r = ctx.call(fn, a, b, n_t=n_t)
    else:
        r = ctx.call(fn, a, b, n_t)
    s = oracle.bed_summary(a, b, n_t)
    common.describe_string_pair(ctx, a, b, n_t, s)
    judge(ctx, a, b, n_t, r, 'edits')
    ctx.expect((list(a), list(b)) == (list(gen.as_sets(case['a'])), list(gen.as_sets(case['b']))),
               'arguments were changed')
    # swapped
    q = ctx.call(fn, b, a, n_t)
    judge(ctx, b, a, n_t, q, 'edits of the swapped strings')
    side = lambda edits, x: sum(1 for e in edits if e[1] == x)
    ctx.expect((side(r[0], 'a'), side(r[0], 'b')) == (side(q[0], 'b'), side(q[0], 'a')),
               'swapping the strings does not swap the sides of the additions', a=a, b=b, n_t=n_t, forward=r, backward=q)
    ctx.expect(len(r[1]) == len(q[1]), 'swapping the strings changes the number of substitutions', forward=r, backward=q)
    ctx.expect(sum(abs(x - y) for x, y in r[1]) == sum(abs(x - y) for x, y in q[1]),
               'swapping the strings changes the cost of the substitutions', forward=r, backward=q)
    if s['S'] == 0 or all(len(o) == 1 for o in (oracle.pairings(x, y)[2] for x, y in s['residual'].values())):
        ctx.expect(sorted(map(tuple, r[1])) == sorted((y, x) for x, y in q[1]),
                   'swapping the strings does not swap the direction of the substitutions', forward=r, backward=q)
    ctx.expect(sorted(map(tuple, r[2])) == sorted(map(tuple, q[2])),
               'swapping the strings changes the transpositions', a=a, b=b, n_t=n_t, forward=r, backward=q)
    # equal strings
    e = ctx.call(fn, a, gen.as_sets(case['a'], case['c'], case['s']), n_t)
    ctx.expect([len(x) for x in e] == [0, 0, 0], 'edits between identical strings', a=a, n_t=n_t, result=e)
    if case['nested']:
        from rv import tap
        with tap.Tap(['boundary_edit_distance']) as t:
            for m in (A.boundary_similarity, A.boundary_statistics, A.segmentation_similarity):
                ctx.call(m, a, b, n_t=n_t, boundary_format=A.BoundaryFormat.sets)
        for name, args, kwargs, res in t.events:
            got = list(args) + [kwargs.get('boundary_string_a'), kwargs.get('boundary_string_b')]
            x, y = (args + (kwargs.get('boundary_string_a'), kwargs.get('boundary_string_b')))[:2]
            lim = args[2] if len(args) > 2 else kwargs.get('n_t', 2)
            ctx.feature('nested_events')
            judge(ctx, x, y, lim, res, 'edits observed inside a metric')
        if not t.events:
            ctx.feature('nested_events')   # computed without calling the public function
