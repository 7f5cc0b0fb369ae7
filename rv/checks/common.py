"""Workload streams and comparisons shared by several monitors."""
import os
from collections import Counter
from decimal import Decimal
from fractions import Fraction
from rv import gen, kinds, oracle
from rv.core import Violation, short, describe_call


def share(ctx, iterable):
    for i, x in enumerate(iterable):
        if i % ctx.workers == ctx.worker:
            yield x


def exhaustive_mass_pairs(limit):
    for n in range(2, limit + 1):
        comps = list(gen.compositions(n))
        for a in comps:
            for b in comps:
                yield a, b


def exhaustive_string_pairs(n, subsets):
    ss = list(gen.all_strings(n, subsets))
    for a in ss:
        for b in ss:
            yield a, b


def small_string_scopes(ctx):
    """finite scopes enumerated completely: all pairs of strings over these subsets"""
    yield exhaustive_string_pairs(1, [[], [1], [2], [1, 2], [3], [1, 3], [2, 3], [1, 2, 3]])
    yield exhaustive_string_pairs(2, [[], [1], [2], [1, 2]])
    yield exhaustive_string_pairs(3, [[], [1], [2], [1, 2]])
    yield exhaustive_string_pairs(4, [[], [1]])
    yield exhaustive_string_pairs(5, [[], [1]])
    if not ctx.quick():
        yield exhaustive_string_pairs(2, [[], [1], [2], [3], [1, 2], [1, 3], [2, 3], [1, 2, 3]])
        yield exhaustive_string_pairs(6, [[], [1]])
        yield exhaustive_string_pairs(7, [[], [1]])
        yield exhaustive_string_pairs(4, [[], [1], [2]])


def string_stream(ctx, quick, thorough, limits=(1, 2, 3, 4)):
    """(a, b, n_t): small scopes enumerated, then random pairs"""
    for scope in small_string_scopes(ctx):
        for k, (a, b) in enumerate(share(ctx, scope)):
            yield a, b, limits[k % len(limits)] if ctx.quick() else limits[(k // 3) % len(limits)]
    for _ in range(ctx.scale(quick, thorough)):
        a, b = gen.any_string_pair(ctx.rng)
        yield a, b, gen.n_t(ctx.rng, len(a))
    for _ in share(ctx, range(3 if ctx.quick() else 16)):
        a, b = [[sorted(x) for x in oracle.masses_to_string(m)] for m in gen.huge_pair(ctx.rng)]
        yield a, b, ctx.rng.choice([2, 3])


def describe_string_pair(ctx, a, b, n_t, s):
    """what kind of execution was observed"""
    f = []
    if s['T']:
        f.append('with_transpositions')
        if s['T_span'] > s['T']:
            f.append('transposition_span_over_1')
    if s['S']:
        f.append('with_substitutions')
    if s['A']:
        f.append('with_additions')
    types = oracle.types_of(a, b)
    if len(types) > 1:
        f.append('several_types')
    if any(t <= 0 for t in types):
        f.append('zero_or_negative_type')
    if any(t > 256 for t in types):
        f.append('type_over_256')
    if not any(a) and not any(b):
        f.append('boundary_free')
    if not s['A'] and not s['S'] and not s['T'] and any(a):
        f.append('identical')
    if n_t > 2:
        f.append('n_t_over_2')
    if n_t == 1:
        f.append('n_t_1')
    if n_t > len(a):
        f.append('n_t_over_length')
    if s['T'] and s['S'] and s['A']:
        f.append('all_edit_kinds')
    if len(a) > 100:
        f.append('over_100_positions')
    if len(a) > 512:
        f.append('over_512_positions')
    if len(a) > 65536:
        f.append('over_65536_positions')
    if any(len(set(x) ^ set(y)) > 4 for x, y in zip(a, b)):
        f.append('crowded_position')
    if len(types) > 16:
        f.append('over_16_types')
    if len(types) > 64:
        f.append('over_64_types')
    if types and max(types) - min(types) > 10000:
        f.append('types_far_apart')
    ctx.feature(*f)
    if s['A'] or s['S'] or s['T']:
        ctx.nontrivial()


STRING_FEATURES = ['with_transpositions', 'with_substitutions', 'with_additions', 'several_types',
                   'zero_or_negative_type', 'type_over_256', 'boundary_free', 'identical', 'n_t_over_2', 'n_t_1',
                   'n_t_over_length', 'transposition_span_over_1', 'all_edit_kinds', 'over_100_positions',
                   'over_512_positions', 'over_65536_positions', 'crowded_position', 'types_far_apart', 'over_16_types', 'over_64_types']


def must_close(ctx, got, want, what, tol=None, **details):
    ctx.features['assertions'] += 1
    if not oracle.close(got, want, tol):
        raise Violation('%s is %s, expected %s' % (what, short(got, 120), short_fraction(want)), **details)


def short_fraction(f):
    f = Fraction(f)
    return '%s (%.12g)' % (f, float(f)) if f.denominator < 10 ** 12 else '%.15g' % float(f)


def counter_of(x):
    return Counter(x)


def is_number(x):
    return oracle._num(x)


def same(x, y, tol=Fraction(1, 10 ** 11)):
    """equality of two library results, structurally; numbers within rounding"""
    if is_number(x) and is_number(y):
        return abs(Fraction(x) - Fraction(y)) <= tol * max(1, abs(Fraction(x)))
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(same(x[k], y[k], tol) for k in x)
    if isinstance(x, (set, frozenset)) and isinstance(y, (set, frozenset)):
        return x == y
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same(p, q, tol) for p, q in zip(x, y))
    return x == y


def nonzero_cells(matrix):
    return dict(((p, a), v) for p, row in matrix.items() for a, v in row.items() if v != 0)


def canonical(value):
    """order-free form of a library result (edit lists are multisets, zero cells are no cells)"""
    if isinstance(value, dict) and 'count_edits' in value:
        out = dict(value)
        for k in ('additions', 'substitutions', 'transpositions', 'full_misses', 'matches'):
            out[k] = sorted((tuple(x) if isinstance(x, tuple) else x for x in value[k]), key=repr)
        out['boundary_types'] = sorted(value['boundary_types'])
        return out
    if type(value).__name__ == 'ConfusionMatrix':
        return dict((('cell',) + k, v) for k, v in nonzero_cells(value).items())
    if isinstance(value, dict):
        return dict((k, canonical(v)) for k, v in value.items())
    if isinstance(value, (tuple, list)) and len(value) == 5 and isinstance(value[2], list):
        return [value[0], value[1]] + [sorted((tuple(e) for e in x), key=repr) for x in value[2:]]
    return value


def flip(case):
    """a coin that falls the same way whenever the case is run"""
    return len(repr(sorted(case.items(), key=repr))) % 2 == 0


def other_kind(ctx, case, e):
    """the encoding of the second segmentation: now and then of the other container, with the other kind of sets"""
    if len(repr(sorted(case.items(), key=repr))) % 4 != 1 or e['f'] == 'nltk':
        return e
    ctx.feature('mixed_containers')
    out = dict(e, c=kinds.OTHER[e['c']])
    if 'set' in e:
        out['set'] = 'set' if e['set'] == 'frozenset' else 'frozenset'
    return out


def call_pair(ctx, fn, case, x, y, opts):
    if case['call'] != 'kw':
        return ctx.call(fn, x, y, **opts)
    if flip(case):
        # keywords have no order
        ctx.feature('keywords_reversed')
        pair = dict(opts)
        pair['reference'] = y
        pair['hypothesis'] = x
        return ctx.call(fn, **pair)
    return ctx.call(fn, hypothesis=x, reference=y, **opts)


def parts_options(ctx, case):
    """the parts are those of the value itself, whether or not its complement is asked for"""
    if len(repr(sorted(case.items(), key=repr))) % 3 == 0:
        ctx.feature('parts_with_one_minus')
        return {'return_parts': True, 'one_minus': True}
    return {'return_parts': True}


PATHS = ['', '', '', 'bare', 'dot', 'up', 'detour', 'double']


def path_form(ctx, form, d, name):
    """one of the many ways to name the file (or, for an empty name, the directory d); may change the working directory"""
    if not form:
        return os.path.join(d, name)
    ctx.feature('path_' + form)
    if form == 'detour':
        return os.path.join(d, '..', os.path.basename(d), name)
    if form == 'double':
        return os.path.join(d + os.sep, '.', '') + os.sep + name
    os.chdir(d)
    if form == 'bare':
        return name or '.'
    if form == 'dot':
        return os.path.join('.', name)
    return os.path.join('..', os.path.basename(d), name)
