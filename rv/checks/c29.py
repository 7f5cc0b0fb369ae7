"""C29: datasets, confusion matrices and results survive copying, pickling and the way to another process."""
import atexit
import copy
import os
import pickle
import select
import struct
import subprocess
import sys
from rv import core, gen, kinds
from rv.core import api, short, Violation
from rv.checks import common

INTERPRETERS = 'both'
ROUTES = ['copy', 'deepcopy'] + ['pickle%d' % p for p in range(6)] + ['within', 'process']
REQUIRED = ['route_' + r for r in ROUTES] + \
    ['route_method', 'chain', 'dataset', 'sample', 'matrix', 'result', 'error', 'built_ctor', 'built_iadd', 'built_add', 'built_items',
     'built_plain', 'properties', 'boundary_types', 'integer_coders', 'unicode', 'property_not_named_by_text', 'item_without_codings', 'empty_dataset',
     'default_properties', 'evaluated_in_process', 'copy_changed', 'original_changed', 'row_without_cells', 'classes_asked_before',
     'from_metric', 'empty_matrix', 'dictionary_of_matrices', 'shared_codings', 'row_copied', 'subclass_of_dataset', 'subclass_of_matrix'] + \
    ['format_' + f for f in ('mass', 'position', 'nltk', 'sets')]
RULE = ('random datasets, confusion matrices, metric results and errors through chains of copy routes (copy, deepcopy, the '
        'dataset\'s own copy, every pickle protocol, inside another container, to a process with another hash seed and back); '
        'compared part by part, evaluated, then both sides changed in turn; non-trivial: something other than an empty object')
ASSUMPTIONS = ['codings and labels are themselves picklable', 'independence is demanded of deep copies and pickles, not of copy.copy']
METRICS = ['boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix', 'pk', 'window_diff']
COEFFS = ['actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear']


# ------------------------------------------------------------- another process
class Remote(object):
    def __init__(self):
        env = dict(os.environ, PYTHONHASHSEED='4711' if os.environ.get('PYTHONHASHSEED') != '4711' else '42')
        self.proc = subprocess.Popen([sys.executable, '-W', 'ignore'] + ['-O'] * sys.flags.optimize + ['-m', 'rv.checks.c29'], cwd=core.HERE, stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, env=env)
        atexit.register(self.close)

    def ask(self, job):
        data = pickle.dumps(job, 2)
        self.proc.stdin.write(struct.pack('>I', len(data)) + data)
        self.proc.stdin.flush()
        if not select.select([self.proc.stdout], [], [], 120)[0]:
            self.proc.kill()
            self.proc.wait()
            del _remote[:]
            raise Violation('another process gave no answer within 120 s')
        head = self.proc.stdout.read(4)
        if len(head) < 4:
            del _remote[:]
            raise Violation('another process ended while reading what was pickled here')
        return pickle.loads(self.proc.stdout.read(struct.unpack('>I', head)[0]))

    def close(self):
        if self.proc.poll() is None:
            self.proc.stdin.close()
            self.proc.wait()


_remote = []


def remote(blob, name=None, kw=None):
    """send a pickle; the other process unpickles it, optionally evaluates it, and pickles again"""
    if not _remote:
        _remote.append(Remote())
    status, value = _remote[0].ask((blob, name, kw or {}))
    if status == 'error':
        raise Violation('another process could not %s what was pickled here: %s'
                        % ('evaluate (%s)' % name if name else 'read and pickle again', value))
    return value


def serve():
    A = api()
    out, inp = sys.stdout.buffer, sys.stdin.buffer
    while True:
        head = inp.read(4)
        if len(head) < 4:
            return
        blob, name, kw = pickle.loads(inp.read(struct.unpack('>I', head)[0]))
        try:
            value = pickle.loads(blob)
            reply = 'ok', A[name](value, **kw) if name else value
            data = pickle.dumps((reply[0], pickle.dumps(reply[1], 2)), 2)
        except Exception as exc:
            data = pickle.dumps(('error', '%s: %s' % (type(exc).__name__, str(exc)[:300])), 2)
        out.write(struct.pack('>I', len(data)) + data)
        out.flush()


def through(ctx, x, route):
    ctx.feature('route_' + route)
    what = '%s by way of %s' % (type(x).__name__, route)
    if route == 'copy':
        f = copy.copy
    elif route == 'deepcopy':
        f = copy.deepcopy
    elif route == 'method':
        f = lambda v: v.copy()
    elif route == 'within':
        f = lambda v: pickle.loads(pickle.dumps(copy.deepcopy({'a': [v, 1], 'b': v}), 2))['a'][0]
    elif route == 'process':
        f = lambda v: pickle.loads(remote(pickle.dumps(v, 2)))
    else:
        p = min(int(route[6:]), pickle.HIGHEST_PROTOCOL)
        f = lambda v: pickle.loads(pickle.dumps(v, p))
    f.__name__ = str(what)
    return ctx.call(f, x)


def through_named(ctx, x, routes):
    if len(routes) > 1:
        ctx.feature('chain')
    for r in routes:
        x = through(ctx, x, r)
    return x


through_named.__doc__ = 'a chain of routes'


# --------------------------------------------------------------------- cases
def properties(rng):
    if rng.random() < 0.25:
        return None
    pool = [('units', 'sentence'), ('url', u'http://x/\u00e9'), ('n', 7), ('ratio', 0.25), ('tags', ['a', ['b', 'c']]), ('none', None),
            ('meta', {'by': {'who': 'me', 'when': [2012, 1]}}), ('segmentation_type', 'linear'), ('', ''), ('flag', False),
            ('c0', 'a property named like a coder'), ('#7', 'seven'), ('#None', 'nothing'), ('item0', {'c0': [1, 2]})]
    return dict(rng.sample(pool, rng.randint(0, 5)))


def routes(rng, method):
    pool = ROUTES[:-1] + (['method'] if method else [])
    if rng.random() < 0.12:
        return ['process'] + ([rng.choice(pool)] if rng.random() < 0.4 else [])
    return [rng.choice(pool) for _ in range(rng.choice([1, 1, 1, 2, 3]))]


LABELS = [['a', 'b', 'c', 'd'], [0, 1, 2, 3], [None, 'None', 1, ''], [u'\u00e9', 'e', 'E', ' '], [[1, 2], [2, 1], [1], []],
          [1, '1', [1], 'one'], [-1, 256, 257, 10 ** 20]]


def cases(ctx):
    rng = ctx.rng
    for i, name in enumerate(sorted(core.SAMPLES)):
        if i % ctx.workers == ctx.worker:
            for r in ROUTES + ['method']:
                yield {'k': 'sample', 'name': name, 'routes': [r]}
    for i in range(ctx.scale(1100, 26000)):
        r = i % 5
        if r < 3:
            e = gen.encoding(rng)
            ds = gen.dataset(rng, nmax=20, full=rng.random() < 0.6)
            if rng.random() < 0.06:
                ds = {}
            elif rng.random() < 0.12:
                ds['hollow'] = {}
            yield {'k': 'dataset', 'ds': ds, 'e': e, 'props': properties(rng), 'routes': routes(rng, True),
                   'types': rng.choice([None, None, [1], [1, 2], [2, 5, 9], []]), 'ints': rng.random() < 0.15,
                   'build': rng.choice(['ctor', 'ctor', 'iadd', 'add', 'items', 'plain']), 'eval': rng.random(),
                   'there': rng.random() < 0.08, 'same': rng.random() < 0.15, 'own': rng.random() < 0.1, 'first': rng.choice(['copy', 'original'])}
        elif r == 3:
            labels = rng.choice(LABELS)
            ops = [[rng.choice(['add', 'add', 'add', 'set', 'touch', 'read', 'classes']), rng.randrange(4), rng.randrange(4), rng.randint(0, 9)]
                   for _ in range(rng.choice([0, 1, 3, 8, 20]))]
            a, b = gen.mass_pair(rng, big=False)
            yield {'k': 'matrix', 'labels': labels, 'ops': ops, 'routes': routes(rng, False), 'a': a, 'b': b,
                   'source': rng.choice(['ops', 'ops', 'ops', 'metric', 'dict']), 'asked': rng.random() < 0.5, 'own': rng.random() < 0.1,
                   'first': rng.choice(['copy', 'original'])}
        else:
            a, b = gen.mass_pair(rng, big=False)
            yield {'k': 'result', 'a': a, 'b': b, 'ds': gen.dataset(rng, nmax=16), 'routes': routes(rng, False),
                   'm': rng.choice(METRICS + ['boundary_edit_distance']), 'whole': rng.random() < 0.3,
                   'parts': rng.random() < 0.3, 'error': rng.random() < 0.2, 'n_t': rng.choice([2, 2, 3, 9])}


# ---------------------------------------------------------------------- runs
def snapshot(A, ds):
    return {'items': dict((it, dict((c, (type(s).__name__, list(s) if not isinstance(s, str) else s)) for c, s in cs.items()))
                          for it, cs in ds.items()),
            'coders': sorted(ds.coders, key=repr), 'properties': copy.deepcopy(ds.properties),
            'boundary_types': sorted(ds.boundary_types), 'boundary_format': ds.boundary_format}


def evaluate(A, ds, case):
    """(name, options) of an evaluation that the data supports"""
    f = case['e']['f']
    pool = ['boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix']
    if f != 'sets':
        pool += ['pk', 'window_diff']
    if f in ('mass', 'position'):
        pool += ['compute_window_size']
    if all(set(cs) == set(list(case['ds'].values())[0]) and len(cs) > 1 for cs in case['ds'].values()) \
            and gen.agreeable(case['ds']) and f != 'sets':
        pool += COEFFS
    return pool[int(case['eval'] * len(pool))]


def run(case, ctx):
    A = api()
    ctx.feature(case['k'])
    {'dataset': run_dataset, 'sample': run_sample, 'matrix': run_matrix, 'result': run_result}[case['k']](case, ctx, A)


def run_dataset(case, ctx, A):
    e = case['e']
    model = case['ds']
    ctx.feature('format_' + e['f'], 'built_' + case['build'])
    if case['ints']:
        ctx.feature('integer_coders')
        names = {}
        model = dict((it, dict((names.setdefault(c, 7 * len(names)), x) for c, x in cs.items())) for it, cs in model.items())
    if any(ord(ch) > 127 for it in model for ch in it):
        ctx.feature('unicode')
    if model:
        ctx.nontrivial()
    else:
        ctx.feature('empty_dataset')
    if not all(model.values()):
        ctx.feature('item_without_codings')
    data = gen.encode_dataset(A, model, e, as_dict=True)
    if case['same']:
        # one coding object for two coders
        for cs in data.values():
            if len(cs) > 1:
                ctx.feature('shared_codings')
                ks = list(cs)
                cs[ks[0]] = cs[ks[-1]]
    opts = {'boundary_format': gen.boundary_format(A, e)}
    if case['props'] is not None:
        names = {'#7': 7, '#None': None}
        opts['properties'] = dict((names.get(k, k), v) for k, v in copy.deepcopy(case['props']).items())
        if any(not isinstance(k, str) for k in opts['properties']):
            ctx.feature('property_not_named_by_text')
        if case['props']:
            ctx.feature('properties')
    else:
        ctx.feature('default_properties')
    if case['types'] is not None:
        ctx.feature('boundary_types')
        opts['boundary_types'] = case['types']
    b = case['build']
    Dataset = kinds.corpus() if case['own'] else A.Dataset
    if case['own']:
        ctx.feature('subclass_of_dataset')
    if b == 'plain':
        opts = {'boundary_format': opts['boundary_format']}
    if b in ('ctor', 'plain'):
        ds = Dataset(data, **opts)
    else:
        ds = Dataset(**opts)
        if b == 'iadd':
            ds += A.Dataset(data)
        elif b == 'add':
            ds = ds + A.Dataset(data)
        else:
            for it, cs in data.items():
                for c, s in cs.items():
                    ds[it][c] = s
    info = dict(case=case)
    before = snapshot(A, ds)
    copied = through_named(ctx, ds, case['routes'])

    def compare(x, want, what):
        ctx.expect(type(x) is type(ds), '%s is a %s' % (what, type(x).__name__), **info)
        try:
            got = snapshot(A, x)
        except Exception as exc:
            raise Violation('%s cannot be read: %s: %s' % (what, type(exc).__name__, exc), **info)
        for part in ('items', 'coders', 'properties', 'boundary_types', 'boundary_format'):
            ctx.expect(got[part] == want[part], '%s has %s %s, the original %s' % (what, part, short(got[part]), short(want[part])), **info)
    way = 'dataset by way of %s' % ', '.join(case['routes'])
    compare(copied, before, way)
    compare(ds, before, 'the original after being copied')
    ctx.expect(copied is not ds, 'the copy is the original', **info)
    ctx.expect(copied == ds and not copied != ds, 'copy and original compare unequal', **info)
    # evaluation
    if model and all(model.values()):
        name = evaluate(A, ds, case)
        want = ctx.outcome(A[name], ds)
        got = ctx.outcome(A[name], copied)
        ctx.events['evaluation'] += 1
        ctx.expect(got[0] == want[0] and (common.same(common.canonical(got[1]), common.canonical(want[1])) if got[0] == 'ok'
                                          else type(got[1]) is type(want[1])),
                   '%s of the copy is %s, of the original %s' % (name, short(got[1]), short(want[1])), **info)
        if case['there'] and want[0] == 'ok':
            ctx.feature('evaluated_in_process')
            there = pickle.loads(remote(pickle.dumps(ds, 2), name))
            ctx.expect(common.same(common.canonical(there), common.canonical(want[1])),
                       '%s of the dataset in another process is %s, here %s' % (name, short(there), short(want[1])), **info)
    # independence
    deep = [r for r in case['routes'] if r != 'copy']
    sides = [('the copy', copied, 'the original', ds), ('the original', ds, 'the copy', copied)]
    if case['first'] == 'original':
        sides.reverse()
    for what, x, other_name, other in sides:
        ctx.feature('copy_changed' if x is copied else 'original_changed')
        keep = snapshot(A, other)
        new = 'new in %s' % what
        x[new]['newcomer'] = (2, 3)
        ctx.expect(dict(x[new]) == {'newcomer': (2, 3)}, 'an item first named in %s is %s' % (what, short(x[new])), **info)
        if deep:
            x += {new + ' 2': {'another ' + what: (5,)}}
            ctx.expect('another ' + what in x.coders, 'a coder added to %s is not among its coders' % what, **info)
            for it in list(x)[:2]:
                for c in list(x[it]):
                    if isinstance(x[it][c], list):
                        x[it][c].append('changed')
                x[it]['late ' + what] = (1,)
            x.properties[new] = 1
            for v in x.properties.values():
                if isinstance(v, dict):
                    v[new] = 1
                elif isinstance(v, list):
                    v.append(new)
            x.boundary_types.add(77 if x is copied else 78)
            x.boundary_format = A.BoundaryFormat.nltk if x.boundary_format != A.BoundaryFormat.nltk else A.BoundaryFormat.mass
        try:
            after = snapshot(A, other)
        except Exception as exc:
            raise Violation('changing %s broke %s: %s' % (what, other_name, exc), **info)
        ctx.expect(after == keep, 'changing %s changed %s: %s, before %s' % (what, other_name, short(after), short(keep)), **info)
    ctx.events['independence'] += 1


def run_sample(case, ctx, A):
    # the datasets that come with the package
    ds = A[case['name']]
    if hasattr(ds, 'coders'):
        before = snapshot(A, ds)
        copied = through_named(ctx, ds, case['routes'])
        ctx.expect(type(copied) is A.Dataset and snapshot(A, copied) == before and snapshot(A, ds) == before,
                   '%s by way of %s is %s' % (case['name'], case['routes'], short(snapshot(A, copied))), case=case)
    else:
        copied = through_named(ctx, ds, case['routes'])
        ctx.expect(copied == ds, '%s by way of %s is %s' % (case['name'], case['routes'], short(copied)), case=case)
    ctx.nontrivial()


def thing(label):
    return tuple(label) if isinstance(label, list) else label


def cells(m):
    return dict((p, dict(row)) for p, row in m.items())


def run_matrix(case, ctx, A):
    info = dict(case=case)
    labels = [thing(x) for x in case['labels']]
    if case['source'] == 'ops':
        if case['own']:
            ctx.feature('subclass_of_matrix')
        m = kinds.matrix()() if case['own'] else A.ConfusionMatrix()
        for op, i, j, v in case['ops']:
            p, a = labels[i], labels[j]
            if op == 'add':
                m[p][a] += v
            elif op == 'set':
                m[p][a] = v
            elif op == 'touch':
                m[p]
                ctx.feature('row_without_cells')
            elif op == 'read':
                m[p][a]
            else:
                m.classes()
        if not case['ops']:
            ctx.feature('empty_matrix')
        else:
            ctx.nontrivial()
        whole = m
    elif case['source'] == 'metric':
        ctx.feature('from_metric')
        ctx.nontrivial()
        whole = m = A.boundary_confusion_matrix(case['a'], case['b'])
    else:
        ctx.feature('dictionary_of_matrices')
        ctx.nontrivial()
        whole = A.boundary_confusion_matrix(A.Dataset({'i': {'x': case['a'], 'y': case['b']}}))
        m = list(whole.values())[0]
    if case['asked']:
        ctx.feature('classes_asked_before')
        m.classes()
    before = cells(m)
    copied_whole = through_named(ctx, whole, case['routes'])
    way = 'matrix by way of %s' % ', '.join(case['routes'])
    if whole is not m:
        ctx.expect(isinstance(copied_whole, dict) and set(copied_whole) == set(whole),
                   'dictionary of matrices is %s' % short(copied_whole), **info)
        copied = copied_whole[list(whole)[0]]
    else:
        copied = copied_whole
    ctx.expect(type(copied) is type(m), '%s is a %s' % (way, type(copied).__name__), **info)
    ctx.expect(cells(copied) == before, '%s has cells %s, the original %s' % (way, short(cells(copied)), short(before)), **info)
    ctx.expect(cells(m) == before, 'copying changed the original to %s from %s' % (short(cells(m)), short(before)), **info)
    got, want = ctx.call(copied.classes), ctx.call(m.classes)
    expected = set(before) | set(a for row in before.values() for a in row)
    ctx.expect(got == want == expected, '%s has classes %s, the original %s' % (way, short(got), short(want)), **info)
    for name in ('precision', 'recall', 'fmeasure'):
        for version in (A.Average.micro, A.Average.macro):
            x, y = ctx.outcome(A[name], copied, version=version), ctx.outcome(A[name], m, version=version)
            ctx.expect(x[0] == y[0] and (x[0] == 'error' or common.same(x[1], y[1])),
                       '%s of the copy is %s, of the original %s' % (name, short(x[1]), short(y[1])), **info)
    ctx.events['evaluation'] += 1
    # rows on their own are dictionaries of counts that belong to no matrix
    for p in list(before)[:3]:
        for route in case['routes'][:1] + ['method'] * case['asked']:
            ctx.feature('row_copied')
            row = through(ctx, m[p], route)
            ctx.expect(isinstance(row, dict) and dict(row) == before[p],
                       'row %r by way of %s is %s, the original %s' % (p, route, short(row), short(before[p])), **info)
            ctx.expect(row['never counted'] == 0, 'an unseen cell of a copied row is not 0', **info)
            row['only in the copy'] = 4
            ctx.expect(cells(m) == before and ctx.call(m.classes) == expected, 'changing a copied row changed the matrix to %s' % short(cells(m)), **info)
    # independence and liveness: both remain matrices that keep their classes
    shallow = all(r == 'copy' for r in case['routes']) or (whole is not m and case['routes'] == ['copy'])
    sides = [('the copy', copied, m), ('the original', m, copied)]
    if case['first'] == 'original':
        sides.reverse()
    for what, x, other in sides:
        ctx.feature('copy_changed' if x is copied else 'original_changed')
        keep, keep_classes = cells(other), set(other.classes())
        mine = set(x.classes())
        for p in list(x):
            # a class that appears in an existing row
            new = 'seen in ' + what + repr(p)
            x[p][new] += 3
            mine.add(new)
            ctx.expect(set(x.classes()) == mine, 'classes of %s after counting %r in row %r: %s' % (what, new, p, short(x.classes())), **info)
        new = 'row of ' + what
        x[new]['of ' + what] += 2
        mine |= set([new, 'of ' + what])
        ctx.expect(set(x.classes()) == mine, 'classes of %s after a new row: %s' % (what, short(x.classes())), **info)
        ctx.expect(x['unknown to ' + what]['unknown'] == 0, 'an unseen cell of %s is not 0' % what, **info)
        if not shallow:
            ctx.expect(cells(other) == keep and set(other.classes()) == keep_classes,
                       'changing %s changed the other: %s, before %s' % (what, short(cells(other)), short(keep)), **info)
    ctx.events['independence'] += 1


def same_types(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        return all(k in y and same_types(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same_types(p, q) for p, q in zip(x, y))
    return True


def run_result(case, ctx, A):
    info = dict(case=case)
    ctx.nontrivial()
    if case['error']:
        ctx.feature('error')
        st, x = ctx.outcome(A[METRICS[len(case['a']) % len(METRICS)]], case['a'], case['b'] + [1])
        if st != 'error':
            return
        y = through_named(ctx, x, case['routes'])
        ctx.expect(type(y) is type(x) and str(y) == str(x), 'the error became %r, was %r' % (y, x), **info)
        return
    name = case['m']
    kw = {}
    if name == 'boundary_edit_distance':
        a = A.boundary_string_from_masses(case['a'])
        b = A.boundary_string_from_masses(case['b'])
        x = ctx.call(A[name], a, b, n_t=case['n_t'])
    else:
        if case['parts'] and name not in ('boundary_statistics', 'boundary_confusion_matrix'):
            kw['return_parts'] = True
        if name not in ('pk', 'window_diff'):
            kw['n_t'] = case['n_t']
        x = ctx.call(A[name], A.Dataset(case['ds']), **kw) if case['whole'] else ctx.call(A[name], case['a'], case['b'], **kw)
    y = through_named(ctx, x, case['routes'])
    ctx.expect(common.canonical(x) == common.canonical(y), 'the result of %s became %s, was %s' % (name, short(y), short(x)), **info)
    if name != 'boundary_confusion_matrix':
        ctx.expect(x == y and same_types(x, y), 'the result of %s became %s, was %s' % (name, short(y), short(x)), **info)


if __name__ == '__main__':
    serve()
