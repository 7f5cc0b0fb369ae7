"""C08: boundary statistics describe the compared pair."""
from collections import Counter
from rv import oracle
from rv.core import api, short
from rv.checks import common, simpairs

INTERPRETERS = 'both'
SHARING = True
EXPLICIT = True
REQUIRED = simpairs.FEATURES
REQUIRED += ['explicit_' + o for o in ['permuted', 'n_t', 'weight']]
RULE = ('all mass pairs up to 5 (thorough 7) units and small multi-type scopes, plus random pairs in all four formats; '
        'every entry of the statistics compared with the compared pair; non-trivial: the pair differs')
ASSUMPTIONS = ['lists are compared as multisets']


def cases(ctx):
    return simpairs.cases(ctx, 1300, 32000)


def run(case, ctx):
    A = api()
    x, y, opts, a, b, n_t, w = simpairs.materialise(case, ctx, A)
    s = oracle.bed_summary(a, b, n_t)
    common.describe_string_pair(ctx, a, b, n_t, s)
    got = simpairs.call(ctx, A.boundary_statistics, case, x, y, **opts)
    want = oracle.statistics(a, b, n_t, w)
    info = dict(a=x, b=y, options=case, result=got)
    for k in ('matches', 'full_misses'):
        ctx.expect(Counter(got[k]) == want[k], '%s are %s, expected %s' % (
            k, short(sorted(got[k])), short(sorted(want[k].elements()))), **info)
    for k in ('boundaries_all', 'pbs'):
        ctx.expect(got[k] == want[k], '%s is %r, expected %r' % (k, got[k], want[k]), **info)
    ctx.expect(set(got['boundary_types']) == set(want['boundary_types']), 'boundary types are %r, expected %r' % (
        set(got['boundary_types']), set(want['boundary_types'])), **info)
    common.must_close(ctx, got['count_edits'], want['count_edits'], 'weighted edit count', **info)
    msg = oracle.explain_edits(a, b, n_t, got['additions'], got['substitutions'], got['transpositions'])
    ctx.expect(msg is None, 'edits: %s' % msg, **info)
    ctx.expect(2 * len(got['matches']) + len(got['full_misses']) == got['boundaries_all'],
               'twice the matches plus the full misses is not the number of boundaries', **info)
    ctx.expect(len(got['full_misses']) == len(got['additions']) + 2 * len(got['substitutions']) +
               2 * len(got['transpositions']), 'edits do not cover the full misses', **info)
