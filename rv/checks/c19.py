"""C19: histories of dataset operations against an executable model."""
from rv import gen, kinds
from rv.core import api, short
from rv.checks import common

INTERPRETERS = 'both'
OPS = ['new', 'copy', 'add', 'iadd', 'edit_item', 'edit_coding', 'edit_list', 'edit_property', 'edit_nested_property',
       'edit_types', 'edit_coders', 'duplicate_refused']
REQUIRED = ['op_' + o for o in OPS] + ['shared_item_merge', 'chained_merge', 'empty_operand', 'list_codings', 'copy_of_copy', 'empty_coding', 'item_without_codings', 'over_40_items', 'over_13_coders', 'subclass', 'subclass_merged'] + ['named_' + n for n in gen.NAMES]
RULE = ('random histories of construction, copy, +, +=, rejected merges and edits (also in place, of nested values) over up '
        'to six datasets; after each step every dataset is compared with its model; non-trivial: a merge or copy followed '
        'by an edit')
ASSUMPTIONS = ['a dataset whose += was refused is not used further', 'the coders attribute is compared until coders are '
               'edited by hand or codings assigned directly', 'segmentations are shared by reference between the right '
               'operand and the result of a merge: only + and += themselves must not change the right operand']


def seg(rng):
    # a document of no length is coded by no segments
    return gen.masses(rng, rng.randint(2, 15)) if rng.random() < 0.93 else []


def cases(ctx):
    rng = ctx.rng
    for _ in range(ctx.scale(2000, 45000)):
        big = rng.random() < 0.01
        items = ['i%d' % i for i in range(rng.choice([1, 2, 3, 5]) if not big else rng.randint(40, 120))]
        coders = ['c%d' % i for i in range(rng.choice([2, 3, 4, 8]) if not big else rng.choice([4, 40]))]
        ops = []
        for x in range(rng.randint(2, 4)):
            # the first ones mostly code different coders, so that they merge
            mine = (coders[x % 2::2] if big else coders[x % len(coders)::4]) or coders
            data = dict((it, dict((c, seg(rng)) for c in mine)) for it in rng.sample(items, rng.randint(1, len(items))))
            ops.append(['new', x, data, rng.choice([None, {'b': [1, 2], 'a': {'k': 'v'}}]), rng.choice([None, [1, 2]]),
                        rng.choice(['mass', 'position']), rng.choice(['list', 'tuple'])])
        for _ in range(rng.randint(4, 16) if not big else 5):
            o = rng.choice(['new', 'copy', 'copy', 'add', 'add', 'iadd', 'iadd', 'edit_item', 'edit_coding',
                            'edit_list', 'edit_property', 'edit_nested_property', 'edit_types', 'edit_coders', 'addself'])
            x, y, z = rng.randrange(5), rng.randrange(4), rng.randrange(4)
            if o == 'new':
                data = {}
                if rng.random() < 0.92:
                    for it in rng.sample(items, rng.randint(1, len(items))):
                        data[it] = dict((c, seg(rng)) for c in rng.sample(coders, rng.randint(1, max(1, len(coders) // 2))))
                if rng.random() < 0.15:
                    # an item nobody has coded
                    data[rng.choice(items + ['hollow'])] = {}
                ops.append(['new', x, data, rng.choice([None, {'a': 1}, {'b': [1, 2], 'a': {'k': 'v'}}]),
                            rng.choice([None, [1], [1, 2], [3, 7]]), rng.choice(['mass', 'position', 'sets', 'nltk']),
                            rng.choice(['list', 'tuple'])])
            elif o in ('add',):
                ops.append(['add', x, y, z])
            elif o == 'addself':
                ops.append(['add', x, y, y])
            elif o in ('copy', 'iadd'):
                ops.append([o, x, y])
            elif o in ('edit_item', 'edit_coding'):
                ops.append([o, x, rng.choice(items), rng.choice(coders), seg(rng)])
            elif o == 'edit_list':
                ops.append([o, x, rng.randrange(9)])
            else:
                ops.append([o, x, rng.randrange(100)])
        yield {'ops': ops, 'names': rng.choice(gen.NAMES) if rng.random() < 0.3 else 'plain',
               'own': rng.randrange(256) if rng.random() < 0.2 else 0}


class Model(object):
    """contents and attributes of one dataset; owner ids of its coding objects"""
    def __init__(self, data, coders, props, types, fmt, kind):
        self.data, self.coders, self.props, self.types, self.fmt = data, coders, props, types, fmt
        self.kind = kind
        self.clean = True
        self.shared = set()            # (item, coder) whose list object another dataset holds too

    def clone(self):
        import copy
        return copy.deepcopy(self)


def check(ctx, ds, m, what, info):
    got = dict((it, dict((c, list(s)) for c, s in cs.items())) for it, cs in ds.items())
    ctx.expect(got == m.data, '%s holds %s, expected %s' % (what, short(got), short(m.data)), **info)
    ctx.expect(ds.properties == m.props, '%s has properties %r, expected %r' % (what, ds.properties, m.props), **info)
    ctx.expect(set(ds.boundary_types) == m.types, '%s has boundary types %r, expected %r' % (what, ds.boundary_types, m.types), **info)
    ctx.expect(ds.boundary_format == m.fmt, '%s has format %r, expected %r' % (what, ds.boundary_format, m.fmt), **info)
    if m.clean:
        ctx.expect(set(ds.coders) == m.coders, '%s has coders %r, expected %r' % (what, ds.coders, m.coders), **info)


def run(case, ctx):
    A = api()
    live, models = {}, {}
    merged = edited = False
    item_label, coder_label = gen.Names(case['names']), gen.Names(case['names'])
    ctx.feature('named_' + case['names'])
    for step, op in enumerate(case['ops']):
        name, x = op[0], op[1]
        info = dict(step=step, op=op, history=case['ops'])
        if name == 'new':
            _, x, data, props, types, fmt, kind = op
            data = dict((item_label(it), dict((coder_label(c), s) for c, s in cs.items())) for it, cs in data.items())
            seq = list if kind == 'list' else tuple
            if kind == 'list':
                ctx.feature('list_codings')
            real = dict((it, dict((c, seq(s)) for c, s in cs.items())) for it, cs in data.items())
            kw = {'boundary_format': getattr(A.BoundaryFormat, fmt)}
            if props is not None:
                kw['properties'] = dict(props)
            if types is not None:
                kw['boundary_types'] = list(types)
            ctx.feature('op_new')
            own = case.get('own', 0) >> x % 8 & 1
            if own:
                ctx.feature('subclass')
            live[x] = ctx.call(kinds.corpus() if own else A.Dataset, real, **kw)
            import copy
            models[x] = Model(copy.deepcopy(data), set(c for cs in data.values() for c in cs),
                              copy.deepcopy(props or {}), set(types or [1]), getattr(A.BoundaryFormat, fmt), kind)
            models[x].src_props = props
            check(ctx, live[x], models[x], 'new dataset', info)
            if not all(data.values()):
                ctx.feature('item_without_codings')
            if not all(s for cs in data.values() for s in cs.values()):
                ctx.feature('empty_coding')
            continue
        if name == 'add':
            _, x, y, z = op
            if y not in live or z not in live:
                continue
            l, r = models[y], models[z]
            dup = any(c in l.data.get(it, {}) for it, cs in r.data.items() for c in cs)
            st, v = ctx.outcome(lambda: live[y] + live[z])
            ctx.events['__add__'] += 1
            if dup:
                ctx.feature('op_duplicate_refused')
                ctx.expect(st == 'error' and isinstance(v, A.DataIOError), 'a duplicate coding merged to %s' % short(v), **info)
            else:
                ctx.expect(st == 'ok', 'merging disjoint datasets raised %r' % (v,), **info)
                merge_features(ctx, l, r)
                if type(live[z]) is kinds.corpus():
                    ctx.feature('subclass_merged')
                m = union(l, r)
                check(ctx, v, m, 'the sum', info)
                ctx.feature('op_add')
                merged = True
                for it, cs in r.data.items():
                    for c in cs:
                        m.shared.add((it, c))
                        r.shared.add((it, c))
                # the replaced slot's old dataset is simply dropped
                check(ctx, live[y], l, 'the left operand', info)
                check(ctx, live[z], r, 'the right operand', info)
                live[x], models[x] = v, m
        elif name == 'iadd':
            _, x, y = op
            if x not in live or y not in live or x == y:
                continue
            l, r = models[x], models[y]
            dup = any(c in l.data.get(it, {}) for it, cs in r.data.items() for c in cs)
            target = live[x]

            def inplace(t=target, o=live[y]):
                t += o
                return t
            st, v = ctx.outcome(inplace)
            ctx.events['__iadd__'] += 1
            if dup:
                ctx.feature('op_duplicate_refused')
                ctx.expect(st == 'error' and isinstance(v, A.DataIOError), 'a duplicate coding merged to %s' % short(v), **info)
                check(ctx, live[y], r, 'the right operand of a refused merge', info)
                del live[x], models[x]
                continue
            ctx.expect(st == 'ok', 'merging disjoint datasets raised %r' % (v,), **info)
            merge_features(ctx, l, r)
            if type(live[y]) is kinds.corpus():
                ctx.feature('subclass_merged')
            ctx.feature('op_iadd')
            merged = True
            m = union(l, r)
            m.shared = set(l.shared)
            for it, cs in r.data.items():
                for c in cs:
                    m.shared.add((it, c))
                    r.shared.add((it, c))
            ctx.expect(v is target, '+= replaced the dataset object', **info)
            live[x], models[x] = v, m
        elif name == 'copy':
            _, x, y = op
            if y not in live:
                continue
            ctx.feature('op_copy')
            v = ctx.call(live[y].copy)
            m = models[y].clone()
            m.shared = set()
            if getattr(models[y], 'is_copy', False):
                ctx.feature('copy_of_copy')
            m.is_copy = True
            merged = True
            check(ctx, v, m, 'the copy', info)
            ctx.expect(type(v) is type(live[y]), 'a copy is a %s' % type(v).__name__, **info)
            if x != y:
                live[x], models[x] = v, m
        elif x in live:
            ds, m = live[x], models[x]
            if name == 'edit_item':
                _, _, it, c, s = op
                it, c = item_label(it), coder_label(c)
                ds[it] = {c: list(s)}
                m.data[it] = {c: list(s)}
                m.shared = set(k for k in m.shared if k[0] != it)
                m.clean = False
            elif name == 'edit_coding':
                _, _, it, c, s = op
                it, c = item_label(it), coder_label(c)
                if it in ds:
                    ds[it][c] = tuple(s)
                    m.data[it][c] = list(s)
                    m.shared.discard((it, c))
                    m.clean = False
            elif name == 'edit_list':
                spots = [(it, c) for it in sorted(ds, key=repr) for c in sorted(ds[it], key=repr) if isinstance(ds[it][c], list)
                         and (it, c) not in m.shared]
                if not spots:
                    continue
                it, c = spots[op[2] % len(spots)]
                ds[it][c].append(99)
                m.data[it][c].append(99)
            elif name == 'edit_property':
                ds.properties['p%d' % (op[2] % 4)] = op[2]
                m.props['p%d' % (op[2] % 4)] = op[2]
            elif name == 'edit_nested_property':
                if not isinstance(ds.properties.get('b'), list) or not getattr(m, 'is_copy', False):
                    continue
                ds.properties['b'].append(op[2])
                m.props['b'].append(op[2])
            elif name == 'edit_types':
                ds.boundary_types.add(op[2])
                m.types.add(op[2])
            elif name == 'edit_coders':
                ds.coders.add('by hand %d' % op[2])
                m.coders.add('by hand %d' % op[2])
            ctx.feature('op_' + name)
            if merged:
                edited = True
        # nobody else was affected
        for k in live:
            check(ctx, live[k], models[k], 'dataset %d' % k, info)
    if merged and edited:
        ctx.nontrivial()


def merge_features(ctx, l, r):
    if len(l.data) > 40:
        ctx.feature('over_40_items')
    if any(len(cs) > 13 for cs in l.data.values()):
        ctx.feature('over_13_coders')
    if set(l.data) & set(r.data):
        ctx.feature('shared_item_merge')
    if not l.data or not r.data:
        ctx.feature('empty_operand')
    if l.shared or r.shared:
        ctx.feature('chained_merge')


def union(l, r):
    m = l.clone()
    for it, cs in r.data.items():
        tgt = m.data.setdefault(it, {})
        for c, s in cs.items():
            tgt[c] = list(s)
            m.coders.add(c)
    m.shared = set()
    m.clean = l.clean and r.clean
    m.is_copy = True
    return m
