"""C06: boundary similarity against its definition."""
from rv import oracle
from rv.core import api, short
from rv.checks import common, simpairs

INTERPRETERS = 'both'
SHARING = True
EXPLICIT = True
REQUIRED = simpairs.FEATURES + ['parts_with_one_minus', 'keywords_reversed']
REQUIRED += ['explicit_' + o for o in ['one_minus', 'return_parts', 'permuted', 'n_t', 'weight', 'boundary_types']]
RULE = ('all mass pairs up to 5 (thorough 7) units and small multi-type scopes, plus random pairs in all four formats, '
        'with default, unweighted and user weight triples; value, one-minus and parts compared with the exact '
        'definition; non-trivial: the pair differs')
ASSUMPTIONS = ['values agree to 1e-20 relative (28 digit decimals; 1e-11 for floats)']


def cases(ctx):
    return simpairs.cases(ctx, 900, 22000)


def run(case, ctx):
    A = api()
    x, y, opts, a, b, n_t, w = simpairs.materialise(case, ctx, A)
    s = oracle.bed_summary(a, b, n_t)
    common.describe_string_pair(ctx, a, b, n_t, s)
    num, den, value = oracle.boundary_similarity(a, b, n_t, w)
    fn = A.boundary_similarity
    got = simpairs.call(ctx, fn, case, x, y, **opts)
    info = dict(a=x, b=y, options=case)
    common.must_close(ctx, got, value, 'boundary similarity', **info)
    got = simpairs.call(ctx, fn, case, x, y, one_minus=True, **opts)
    common.must_close(ctx, got, 1 - value, 'one minus boundary similarity', **info)
    parts = simpairs.call(ctx, fn, case, x, y, **dict(opts, **common.parts_options(ctx, case)))
    ctx.expect(len(parts) == 5, 'parts are %s' % short(parts), **info)
    common.must_close(ctx, parts[0], num, 'numerator', **info)
    common.must_close(ctx, parts[1], den, 'denominator', **info)
    ctx.expect([len(p) for p in parts[2:]] == [s['A'], s['S'], s['T']],
               'returned edits are %s, expected numbers %r' % (short(parts[2:]), [s['A'], s['S'], s['T']]), **info)
    msg = oracle.explain_edits(a, b, n_t, *parts[2:])
    ctx.expect(msg is None, 'returned edits: %s' % msg, **info)
    if not any(a) and not any(b):
        ctx.expect(value == 1, 'oracle')
