"""C18: pi, kappa and bias."""
from rv import oracle
from rv.core import api, short
from rv.checks import common, agree

INTERPRETERS = 'both'
SHARING = True
EXPLICIT = True
REQUIRED = agree.FEATURES + ['renamed', 'incomplete_refused', 'incomplete_missing', 'incomplete_other_coder',
                             'incomplete_emptied', 'incomplete_rotating', 'parts_with_one_minus']
REQUIRED += ['explicit_' + o for o in ['one_minus', 'return_parts', 'n_t', 'weight', 'fnc_compare']]
RULE = ('random fully coded datasets in every format, built in nine ways, with both comparison functions, weights and n_t; '
        'coefficients and their parts compared with exact values, again after renaming and reordering coders and items; '
        'incompletely coded variants must be refused; non-trivial: not complete agreement')


def cases(ctx):
    return agree.cases(ctx, 480, 10000)


def run(case, ctx):
    A = api()
    strings = agree.model(case)
    if agree.saturated(strings):
        return
    complete = agree.describe(case, ctx, strings)
    o, w = agree.options(case, ctx, A)
    exp = oracle.agreement(strings, case['compare'] or 'B', case['n_t'], w)
    Aa, Ep, Ek = exp['A'], exp['E_pi'], exp['E_kappa']
    want = {'fleiss_pi_linear': ((Aa - Ep) / (1 - Ep), (Aa, Ep)),
            'fleiss_kappa_linear': ((Aa - Ek) / (1 - Ek), (Aa, Ek)),
            'artstein_poesio_bias_linear': (Ep - Ek, (Ep, Ek))}
    renames = [None, (lambda it: 'z' + it[::-1], lambda c: '%03d' % (sum(map(ord, c)) * 7 % 1000) + c)]
    for turn, rename in enumerate(renames):
        if rename:
            ctx.feature('renamed')
        ds, opts = agree.build(case, ctx, A, rename, reverse=turn == 1)
        opts.update(o)
        info = dict(dataset=ds, options=dict((k, v) for k, v in case.items() if k not in ('masses', 'strings')))
        for name, (value, parts) in want.items():
            fn = A[name]
            got = ctx.call(fn, ds, **opts)
            common.must_close(ctx, got, value, name, **info)
            if turn == 0:
                p = ctx.call(fn, ds, **dict(opts, **common.parts_options(ctx, case)))
                ctx.expect(isinstance(p, tuple) and len(p) == 2, '%s parts are %s' % (name, short(p)), **info)
                for g, x, what in zip(p, parts, ('first', 'second')):
                    common.must_close(ctx, g, x, '%s part of %s' % (what, name), **info)
                common.must_close(ctx, ctx.call(fn, ds, one_minus=True, **opts), 1 - value, 'one minus ' + name, **info)
            if case['w'] is None and name != 'artstein_poesio_bias_linear':
                ctx.expect(got <= 1, '%s is %s' % (name, got), **info)
                ctx.expect((abs(got - 1) < 1e-15) == complete, '%s is %s for %s agreement' % (
                    name, got, 'complete' if complete else 'incomplete'), **info)
    # incompletely coded: a segmentation missing, under another name, all of an item's missing, another one missing per item
    if len(strings) > 1:
        pick = sum(map(len, strings))
        coders = len(next(iter(strings.values())))
        for how in ('missing', 'other_coder', 'emptied', 'rotating'):
            if how == 'rotating' and coders < 3:
                continue
            ds, opts = agree.build(dict(case, map=['dict']), ctx, A)
            opts.update(o)
            it = sorted(ds, key=repr)[pick % len(ds)]
            c = sorted(ds[it], key=repr)[pick % coders]
            if how == 'missing':
                del ds[it][c]
            elif how == 'other_coder':
                ds[it]['another' + str(c)] = ds[it].pop(c)
            elif how == 'emptied':
                ds[it].clear()
            else:
                for k, it in enumerate(sorted(ds, key=repr)):
                    del ds[it][sorted(ds[it], key=repr)[k % coders]]
            ctx.feature('incomplete_refused', 'incomplete_' + how)
            for name in want:
                st, v = ctx.outcome(A[name], ds, **opts)
                ctx.expect(st == 'error', '%s of an incompletely coded dataset is %s (%s)' % (name, short(v), how), dataset=ds)
