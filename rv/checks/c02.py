"""C02: format conversions are lossless."""
from rv import gen, kinds, oracle
from rv.core import api
from rv.checks import common

LABELS = gen.LABELS + ['lists', 'dictionaries']
INTERPRETERS = 'both'
REQUIRED = ['single_segment', 'only_singletons', 'over_256_units', 'over_1000_segments', 'nltk_other_symbol',
            'label_reuse', 'segment_over_65536', 'over_65536_segments', 'letter_symbol_in_other_case', 'container_list', 'container_tuple', 'container_listof', 'container_tupleof'] + ['labels_' + l for l in LABELS]
RULE = ('every mass sequence up to 9 (thorough 13) units plus random ones up to thousands of units, as list and tuple; '
        'every label kind; NLTK strings over several symbol alphabets; non-trivial: more than one segment')
ASSUMPTIONS = ['boundary symbols are single characters occurring nowhere else in the string']
SYMBOLS = [('1', '0'), ('0', '1'), ('|', '.'), ('b', ' '), ('*', '+'), ('\\', '/'), ('.', 'x'), (u'\u00df', u'\u00fc'),
           ('$', '^'), (' ', '-'), ('\n', 'a'), ('X', 'x'), (u'\u00e9', u'\u00c9'), ('#', '##')]


def cases(ctx):
    rng = ctx.rng
    sizes = range(1, 10) if ctx.quick() else range(1, 14)
    k = 0
    for n in sizes:
        for m in common.share(ctx, gen.compositions(n)):
            k += 1
            yield {'m': m, 'c': ('tupleof', 'listof')[k % 2] if k % 11 == 4 else 'list' if k % 2 else 'tuple', 'labels': LABELS[k % len(LABELS)],
                   'sym': k % (len(SYMBOLS) - 1), 'kw': k % 3 == 0, 'reuse': k % 5 == 0}
    for _ in range(ctx.scale(1500, 40000)):
        n = rng.choice([rng.randint(2, 60), rng.randint(60, 400), rng.randint(400, 3000)]) \
            if rng.random() < 0.5 else rng.randint(2, 40)
        yield {'m': gen.masses(rng, n), 'c': gen.container(rng), 'labels': rng.choice(LABELS),
               'sym': rng.randrange(len(SYMBOLS) - 1), 'kw': rng.random() < 0.5, 'reuse': rng.random() < 0.2}

    for k in common.share(ctx, range(3)):
        # more segments than sixteen bits can count
        yield {'m': [1] * 65530 + gen.masses(rng, 900) + [1] * 40, 'c': 'list', 'labels': ['std', 'str', 'zero'][k],
               'sym': rng.randrange(len(SYMBOLS) - 1), 'kw': rng.random() < 0.5, 'reuse': False}
    for _ in range(ctx.scale(2, 20)):
        # segments and texts beyond 16 bits
        m = [rng.choice([1, 2, 5, 65535, 65536, rng.randint(65537, 90000), rng.randint(1, 300)]) for _ in range(rng.randint(1, 4))]
        m.insert(rng.randint(0, len(m)), rng.randint(65537, 80000))
        yield {'m': m, 'c': gen.container(rng), 'labels': rng.choice(['std', 'str', 'zero']),
               'sym': rng.randrange(len(SYMBOLS) - 1), 'kw': rng.random() < 0.5, 'reuse': False}


def eq(ctx, got, want, what, **info):
    ok = isinstance(got, (list, tuple)) and len(got) == len(want) and all(
        type(x) is not bool and x == y for x, y in zip(got, want))
    ctx.expect(ok, '%s is %s, expected %s' % (what, str(got)[:300], str(list(want))[:300]), **info)


def run(case, ctx):
    A = api()
    m = case['m']
    n = sum(m)
    seq = kinds.CONTAINERS[case['c']]
    masses = seq(int(str(x)) for x in m)
    ctx.feature('container_' + case['c'])
    info = dict(masses=m)
    if len(m) > 1:
        ctx.nontrivial()
    ctx.feature(*([('labels_' + case['labels'])] + (['single_segment'] if len(m) == 1 else []) +
                  (['only_singletons'] if n > 1 and set(m) == {1} else []) +
                  (['over_256_units'] if n > 256 else []) + (['segment_over_65536'] if max(m) > 65536 else []) + (['over_65536_segments'] if len(m) > 65536 else []) + (['over_1000_segments'] if len(m) > 1000 else [])))
    pos = ctx.call(A.convert_masses_to_positions, masses)
    eq(ctx, pos, oracle.masses_to_positions(m), 'positions', **info)
    eq(ctx, ctx.call(A.convert_positions_to_masses, seq(pos)), m, 'masses of those positions', **info)
    # other labels; 'reuse' gives non-adjacent segments the same label again
    labs = gen.labels_for(case['labels'], len(m))
    if case['reuse']:
        ctx.feature('label_reuse')
        labs = [labs[i % 2] for i in range(len(m))] if len(m) > 1 else labs
    units = []
    for k, l in zip(m, labs):
        units.extend(gen.fresh(l) for _ in range(k))
    eq(ctx, ctx.call(A.convert_positions_to_masses, seq(units)), m, 'masses of labels %s' % case['labels'],
       labels=units[:50], **info)
    # boundary string
    s = ctx.call(A.boundary_string_from_masses, masses)
    ctx.expect(isinstance(s, (list, tuple)) and len(s) == n - 1, 'boundary string has %d positions, expected %d' % (
        len(s), n - 1), **info)
    for i, (x, y) in enumerate(zip(s, oracle.masses_to_string(m))):
        ctx.expect(isinstance(x, (set, frozenset)) and x == y, 'boundary string position %d is %r, expected %r' % (i, x, y), **info)
    # NLTK string
    sym, other = SYMBOLS[case['sym']]
    string = oracle.masses_to_nltk(m, sym, other)
    if case['kw']:
        got = ctx.call(A.convert_nltk_to_masses, string, boundary_symbol=sym)
    else:
        got = ctx.call(A.convert_nltk_to_masses, string, sym)
    eq(ctx, got, m, 'masses of NLTK string %r' % string[:80], **info)
    if sym != '1':
        ctx.feature('nltk_other_symbol')
    # several other symbols around the boundary symbol
    mixed = ''.join(c if c == sym else 'qrs'[i % 3] for i, c in enumerate(string))
    if sym not in 'qrs':
        eq(ctx, ctx.call(A.convert_nltk_to_masses, mixed, sym), m, 'masses of NLTK string %r' % mixed[:80], **info)
    if sym.swapcase() != sym and len(sym.swapcase()) == 1:
        # the other case of the symbol is no boundary
        ctx.feature('letter_symbol_in_other_case')
        cased = ''.join(c if c == sym else sym.swapcase() for c in string)
        eq(ctx, ctx.call(A.convert_nltk_to_masses, cased, sym), m, 'masses of NLTK string %r' % cased[:80], **info)
    eq(ctx, ctx.call(A.convert_nltk_to_masses, oracle.masses_to_nltk(m)), m, 'masses of NLTK string (default symbol)', **info)
    eq(ctx, masses, m, 'the argument after conversion', **info)
