"""C12: Pk against its sliding-window definition."""
from fractions import Fraction
from rv import oracle
from rv.core import api, short
from rv.checks import common, windows

INTERPRETERS = 'both'
SHARING = True
EXPLICIT = True
REQUIRED = windows.FEATURES + ['some_difference', 'no_window', 'parts_with_one_minus', 'keywords_reversed']
REQUIRED += ['explicit_' + o for o in ['one_minus', 'return_parts', 'permuted', 'fnc_round', 'window_size']]
RULE = ('all mass pairs up to 6 (thorough 8) units with default and given window sizes, plus random pairs up to thousands of '
        'units in three formats; value, one-minus and parts compared with the definition; non-trivial: the pair differs '
        'and at least one window fits')


def cases(ctx):
    return windows.cases(ctx, 1100, 26000, 6 if ctx.quick() else 8)


def run(case, ctx):
    A = api()
    x, y, opts, k = windows.materialise(case, ctx, A)
    diff, win = oracle.pk(case['a'], case['b'], k)
    if diff:
        ctx.feature('some_difference')
    if win == 0:
        ctx.feature('no_window')
    if win and case['a'] != case['b']:
        ctx.nontrivial()
    value = Fraction(diff, win) if win else Fraction(0)
    info = dict(hypothesis=x, reference=y, options=case, k=k)
    common.must_close(ctx, windows.call(ctx, A.pk, case, x, y, **opts), value, 'Pk', **info)
    common.must_close(ctx, windows.call(ctx, A.pk, case, x, y, one_minus=True, **opts), 1 - value, 'one minus Pk', **info)
    parts = windows.call(ctx, A.pk, case, x, y, **dict(opts, **common.parts_options(ctx, case)))
    ctx.expect(tuple(parts) == (diff, win), 'parts are %s, expected %r' % (short(parts), (diff, win)), **info)
