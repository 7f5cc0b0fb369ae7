"""C10: histories of confusion matrices against an executable model."""
import collections
from decimal import Decimal
from rv import kinds
from rv.core import api
from rv.checks import common

INTERPRETERS = 'both'
OPS = ['set', 'inc', 'read', 'row', 'classes', 'rowset', 'poison', 'held', 'heldset', 'new', 'stats', 'cellcheck',
       'zero', 'update', 'setdefault', 'heldupdate', 'union']
REQUIRED = ['op_' + o for o in OPS] + ['class_only_actual', 'class_only_read', 'several_matrices', 'matrix_with_none', 'over_20_classes', 'subclass',
                                        'update_from_iterator', 'update_by_keyword', 'update_from_mapping']
RULE = ('random histories (thorough: also all histories of length 4 over a small alphabet) of cell assignments, increments, '
        'reads, row reads, updates and defaults of rows, class queries, edits of returned class sets, rejected row assignments, operations through '
        'held rows and averaging calls, on up to four matrices at once, each step compared with a dictionary-and-set model; '
        'non-trivial: at least one cell stored and one class query')
ASSUMPTIONS = ['cells are stored by item access, update, in-place union and setdefault on rows; the inherited methods that remove cells or rows are not used']
LABELS = [1, 2, 3, 'a', 'b', '', None, 0, -1, 'x y', 300, ['t', 1], 2.5, u'\u00e9', 'boundary of the first type', 'boundary of the second type', ['corpus', 'text', 'boundary', 'of', 'the', 'first', 'type', 'of', 'all', 1],
          ['corpus', 'text', 'boundary', 'of', 'the', 'first', 'type', 'of', 'all', 2], 'boundary of the first'] + ['k%d' % i for i in range(20)] + list(range(400, 420))


def lab(x):
    return tuple(x) if isinstance(x, list) else x


def cases(ctx):
    rng = ctx.rng
    if True:
        alphabet = [['set', 0, 1, 2, 5], ['read', 0, 2, 3], ['row', 0, 4], ['classes', 0], ['inc', 0, 2, 2],
                    ['poison', 0], ['hold', 0, 1, 0], ['heldset', 0, 4, 1], ['update', 0, 1, [[5, 2], [1, 3]]]]
        depth = 3 if ctx.quick() else 5
        from itertools import product
        for ops in common.share(ctx, product(alphabet, repeat=depth)):
            yield {'n': 1, 'ops': list(ops) + [['classes', 0]]}
    for _ in range(ctx.scale(2600, 60000)):
        n = rng.choice([1, 1, 2, 3, 4])
        labels = rng.sample(range(14), rng.randint(2, 6)) if rng.random() < 0.8 else rng.sample(range(13, 19), rng.randint(2, 6))
        if rng.random() < 0.04:
            labels = list(range(len(LABELS)))
        ops = []
        held = 0
        for _ in range(rng.randint(3, 40) if len(labels) < 20 else rng.randint(60, 200)):
            o = rng.choice(['set', 'set', 'inc', 'inc', 'read', 'row', 'classes', 'classes', 'rowset', 'poison', 'hold',
                            'heldset', 'heldread', 'stats', 'zero', 'new', 'update', 'setdefault', 'heldupdate'])
            m = rng.randrange(n)
            p, a = rng.choice(labels), rng.choice(labels)
            if o == 'set':
                ops.append(['set', m, p, a, rng.choice([1, 2, 7, '0.5', 10 ** 12])])
            elif o == 'zero':
                ops.append(['set', m, p, a, 0])
            elif o == 'update':
                ops.append(['update', m, p, [[rng.choice(labels), rng.choice([0, 1, 3, '0.25'])] for _ in range(rng.randint(0, 3))]])
            elif o == 'setdefault':
                ops.append(['setdefault', m, p, a, rng.choice([0, 1, 6])])
            elif o == 'heldupdate' and held:
                ops.append(['heldupdate', rng.randrange(held), [[rng.choice(labels), rng.choice([1, 3])] for _ in range(rng.randint(1, 3))]])
            elif o == 'heldupdate':
                pass
            elif o in ('inc', 'read'):
                ops.append([o, m, p, a])
            elif o == 'row':
                ops.append([o, m, p])
            elif o in ('classes', 'poison', 'stats', 'new'):
                ops.append([o, m])
            elif o == 'rowset':
                ops.append([o, m, p])
            elif o == 'hold':
                ops.append(['hold', m, p, held])
                held += 1
            elif held:
                h = rng.randrange(held)
                ops.append([o, h, a] + ([rng.choice([1, 4])] if o == 'heldset' else []))
        ops.append(['classes', rng.randrange(n)])
        yield {'n': n, 'ops': ops, 'own': rng.random() < 0.1}


class Model(object):
    def __init__(self):
        self.cells = {}
        self.rows = set()
        self.actual = set()
        self.read = {}          # row -> columns read while absent

    def touch(self, p, a=None, cell=True):
        self.rows.add(p)
        if cell:
            self.actual.add(a)

    def classes(self):
        return self.rows | self.actual


def update(ctx, mo, p, row, pairs, step):
    pairs = [(lab(LABELS[a]), num(v)) for a, v in pairs]
    for a, v in pairs:
        mo.touch(p, a)
        mo.cells[(p, a)] = v
    if step % 7 == 3:
        ctx.feature('update_from_iterator')
        row.update(iter(pairs) if step % 2 else ((a, v) for a, v in pairs))
    elif step % 7 == 5 and pairs and all(isinstance(a, str) and a for a, _ in pairs):
        ctx.feature('update_by_keyword')
        row.update(pairs[:1], **dict(pairs))
    elif step % 7 == 6:
        ctx.feature('update_from_mapping')
        row.update(collections.UserDict(pairs))
    elif step % 3 == 0:
        row.update(pairs)
    elif step % 3 == 1 and hasattr(dict, '__ior__'):
        ctx.feature('op_union')
        r = row
        r |= dict(pairs) if step % 2 else pairs
        ctx.expect(r is row, 'an in-place union of a row makes another row')
    else:
        row.update(dict(pairs))


def num(x):
    return Decimal(x) if isinstance(x, str) else x


def run(case, ctx):
    A = api()
    n = case['n']
    classes = [A.ConfusionMatrix, kinds.matrix()]
    if case.get('own'):
        ctx.feature('subclass')
        classes.reverse()
    ms = [ctx.call(classes[k % 2 and n > 2]) for k in range(n)]
    models = [Model() for _ in range(n)]
    held = {}
    stored = asked = False
    if n > 1:
        ctx.feature('several_matrices')
    for step, op in enumerate(case['ops']):
        name = op[0]
        info = dict(step=step, op=op)
        if name == 'heldupdate':
            if op[1] not in held:
                continue
            ctx.feature('op_heldupdate')
            k, p, row = held[op[1]]
            update(ctx, models[k], p, row, op[2], step)
            continue
        if name in ('heldset', 'heldread'):
            if op[1] not in held:
                continue
            k, p, row = held[op[1]]
            a = lab(LABELS[op[2]])
            mo = models[k]
            mo.touch(p, a)
            if name == 'heldset':
                ctx.feature('op_heldset')
                row[a] = num(op[3])
                mo.cells[(p, a)] = num(op[3])
            else:
                ctx.feature('op_held')
                v = row[a]
                mo.read.setdefault(p, set()).add(a)
                ctx.expect(v == mo.cells.get((p, a), 0), 'held row reads %r, expected %r' % (
                    v, mo.cells.get((p, a), 0)), **info)
            continue
        k = op[1]
        m, mo = ms[k], models[k]
        if name == 'new':
            ctx.feature('op_new')
            for h in [h for h, x in held.items() if x[0] == k]:
                del held[h]
            ms[k] = ctx.call(classes[0])
            models[k] = Model()
            ctx.expect(set(ms[k].classes()) == set(), 'a new matrix has classes %r' % (ms[k].classes(),), **info)
            continue
        p = lab(LABELS[op[2]]) if len(op) > 2 else None
        if name in ('set', 'inc', 'read'):
            a = lab(LABELS[op[3]])
            if p is None or a is None:
                ctx.feature('matrix_with_none')
            if a not in mo.classes():
                ctx.feature('class_only_actual' if name != 'read' else 'class_only_read')
            mo.touch(p, a)
            ctx.events['item access'] += 1
            if name == 'set':
                m[p][a] = num(op[4])
                mo.cells[(p, a)] = num(op[4])
                ctx.feature('op_zero' if op[4] == 0 else 'op_set')
                stored = True
            elif name == 'inc':
                m[p][a] += 1
                mo.cells[(p, a)] = mo.cells.get((p, a), 0) + 1
                ctx.feature('op_inc')
                stored = True
            else:
                v = m[p][a]
                mo.read.setdefault(p, set()).add(a)
                ctx.feature('op_read')
                ctx.expect(v == mo.cells.get((p, a), 0) and not isinstance(v, dict), 'cell reads %r, expected %r' % (
                    v, mo.cells.get((p, a), 0)), **info)
        elif name == 'update':
            ctx.feature('op_update')
            mo.touch(p, cell=False)
            update(ctx, mo, p, m[p], op[3], step)
            stored = stored or bool(op[3])
        elif name == 'setdefault':
            ctx.feature('op_setdefault')
            a = lab(LABELS[op[3]])
            known = (p, a) in mo.cells
            if known or a not in mo.read.get(p, ()):
                mo.touch(p, a)
                v = m[p].setdefault(a, op[4])
                want = mo.cells.setdefault((p, a), op[4])
                ctx.expect(v == want, 'setdefault gives %r, expected %r' % (v, want), **info)
        elif name == 'row':
            mo.touch(p, cell=False)
            row = m[p]
            ctx.feature('op_row')
            want = dict((a, v) for (q, a), v in mo.cells.items() if q == p and v != 0)
            ctx.expect(dict((a, v) for a, v in row.items() if v != 0) == want, 'row %r holds %r, expected %r' % (
                p, dict(row), want), **info)
        elif name == 'hold':
            mo.touch(p, cell=False)
            held[op[3]] = (k, p, m[p])
        elif name == 'rowset':
            ctx.feature('op_rowset')
            st, e = ctx.outcome(m.__setitem__, p, {1: 2})
            ctx.expect(st == 'error', 'a whole row could be assigned', **info)
        elif name in ('classes', 'poison'):
            ctx.feature('op_' + name)
            asked = True
            got = ctx.call(m.classes)
            ctx.expect(set(got) == mo.classes() and len(got) == len(mo.classes()),
                       'classes are %r, expected %r' % (got, mo.classes()), **info)
            if len(mo.classes()) > 20:
                ctx.feature('over_20_classes')
            if name == 'poison':
                for method, arg in (('add', 'poison'), ('discard', p), ('discard', 1), ('clear', None)):
                    f = getattr(got, method, None)
                    if f is not None:
                        try:
                            f() if method == 'clear' else f(arg)
                        except Exception:
                            pass
        elif name == 'stats':
            ctx.feature('op_stats')
            ctx.call(A.precision, m)
            ctx.call(A.fmeasure, m, version=A.Average.macro)
        # every cell of every matrix still reads as stored
        if step % 4 == 0 or step == len(case['ops']) - 1:
            ctx.feature('op_cellcheck')
            for m2, mo2 in zip(ms, models):
                for (q, a), v in mo2.cells.items():
                    ctx.expect(m2[q][a] == v, 'cell (%r,%r) reads %r, expected %r' % (q, a, m2[q][a], v), **info)
    for m, mo in zip(ms, models):
        got = ctx.call(m.classes)
        ctx.expect(set(got) == mo.classes(), 'classes are finally %r, expected %r' % (got, mo.classes()), ops=case['ops'])
    if stored and asked:
        ctx.nontrivial()
