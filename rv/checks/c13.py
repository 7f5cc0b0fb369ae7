"""C13: WindowDiff against its sliding-window definition."""
from rv import gen, oracle
from rv.core import api, short
from rv.checks import common, windows

INTERPRETERS = 'both'
SHARING = True
EXPLICIT = True
REQUIRED = windows.FEATURES + ['some_difference', 'no_window', 'parts_with_one_minus', 'keywords_reversed', 'lamprier', 'lamprier_difference']
REQUIRED += ['explicit_' + o for o in ['one_minus', 'return_parts', 'permuted', 'fnc_round', 'window_size', 'lamprier_et_al_2007_fix']]
RULE = ('all mass pairs up to 6 (thorough 8) units with default and given window sizes, plus random pairs in three formats; '
        'value, one-minus and parts, with and without the Lamprier et al. correction, compared with the definition; '
        'non-trivial: the pair differs and at least one window fits')


def cases(ctx):
    for c in windows.cases(ctx, 420, 9000, 5 if ctx.quick() else 7):
        yield c


def run(case, ctx):
    A = api()
    x, y, opts, k = windows.materialise(case, ctx, A)
    for fix in (False, True):
        diff, den, value = oracle.window_diff(case['a'], case['b'], k, fix)
        o = dict(opts)
        if fix:
            o['lamprier_et_al_2007_fix'] = True
            ctx.feature('lamprier')
        elif case['call'] == 'kw':
            o['lamprier_et_al_2007_fix'] = False
        if diff:
            ctx.feature('lamprier_difference' if fix else 'some_difference')
        n = sum(case['a'])
        if not fix and n <= k:
            ctx.feature('no_window')
        if case['a'] != case['b'] and (fix or n > k):
            ctx.nontrivial()
        info = dict(hypothesis=x, reference=y, options=case, k=k, correction=fix)
        common.must_close(ctx, windows.call(ctx, A.window_diff, case, x, y, **o), value, 'WindowDiff', **info)
        common.must_close(ctx, windows.call(ctx, A.window_diff, case, x, y, one_minus=True, **o), 1 - value,
                          'one minus WindowDiff', **info)
        parts = windows.call(ctx, A.window_diff, case, x, y, **dict(o, **common.parts_options(ctx, case)))
        ctx.expect(len(parts) == 2 and parts[0] == diff, 'parts are %s, expected %r' % (short(parts), (diff, den)), **info)
        # no window: the number of windows is reported as at most 0 and the value is 0
        # an empty window has no phantom units to speak of
        ctx.expect(parts[1] == den or (fix is False and n <= k and parts[1] <= 0) or (fix and k == 0),
                   'parts are %s, expected %r' % (short(parts), (diff, den)), **info)
