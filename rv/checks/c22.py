"""C22: loading a folder tree, under permuted directory listings."""
import io
import json
import os
import pathlib
import random
import shutil
import tempfile
from rv import gen
from rv.core import api, short
from rv.checks import common

INTERPRETERS = 'pypy'
REQUIRED = ['json', 'tsv', 'nested', 'deep', 'upper_case_extension', 'second_extension', 'same_stem', 'unrelated_files',
            'other_type_present', 'no_extension', 'empty_dir', 'dir_named_like_file', 'merged_coders', 'duplicate_refused',
            'existing_dataset', 'listing_permuted', 'loaded_twice', 'files_and_dirs_mixed', 'many_files', 'relative_path', 'same_file_twice', 'existing_dataset_filled', 'existing_dataset_empty',
            'hidden_dir', 'hidden_file', 'over_8_levels', 'over_40_files', 'over_40_folders_in_one', 'over_40_items', 'symbolic_link', 'existing_dataset_overlapping', 'trailing_slash', 'detour_path', 'path_object',
            'names_differing_in_case', 'relative_path_name', 'relative_path_dot', 'relative_path_dot_name', 'relative_path_up']
RULE = ('random trees of JSON or TSV data files with unrelated files, loaded under several permutations of every directory '
        'listing (os.listdir/os.scandir interposed); the dataset compared with the union of the files; non-trivial: at '
        'least two data files')
ASSUMPTIONS = ['directory names contain no comma', 'delimited files contain tabs whatever their extension']


class Listing(object):
    """permutes what the file system lists, reproducibly; records the distinct orders seen"""

    def __init__(self, seed, orders):
        self.rng = random.Random(seed)
        self.orders = orders
        self.calls = 0

    def permute(self, path, names):
        names = sorted(names)
        self.rng.shuffle(names)
        self.calls += 1
        self.orders.add('%s:%s' % (os.path.basename(str(path)), '/'.join(names)))
        return names

    def __enter__(self):
        self.listdir, self.scandir = os.listdir, os.scandir

        def listdir(path='.'):
            return self.permute(path, self.listdir(path))

        def scandir(path='.'):
            real = self.scandir(path)
            entries = dict((e.name, e) for e in real)
            real.close()
            return ScanIterator([entries[n] for n in self.permute(path, entries)])
        os.listdir, os.scandir = listdir, scandir
        return self

    def __exit__(self, *exc):
        os.listdir, os.scandir = self.listdir, self.scandir
        return False


class ScanIterator(object):
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


def cases(ctx):
    rng = ctx.rng
    for _ in range(ctx.scale(420, 8000)):
        kind = rng.choice(['json', 'json', 'tsv'])
        exts = {'json': ['.json', '.json', '.jsn', '.JSON', '.Jsn'], 'tsv': ['.tsv', '.tsv', '.csv', '.TSV', '.Csv']}[kind]
        files, dirs = [], ['']
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            parent = rng.choice(dirs)
            name = rng.choice(['sub', 'b', 'coder set', '2', 'x.d', u'\u00e4', 'deep', 'Sub', 'a.json', 'b.tsv', 'z', '.hidden', '.git', '_x', '~', '__pycache__', 'CVS', 'tmp']) + \
                ('' if rng.random() < 0.7 else str(rng.randint(0, 9)))
            p = (parent + '/' + name).lstrip('/')
            if p not in dirs:
                dirs.append(p)
        if rng.random() < 0.04:
            # a long chain of folders
            p = rng.choice(dirs)
            for j in range(rng.randint(9, 24)):
                p = (p + '/' + rng.choice(['d', 'e%d' % j, 'sub'])).lstrip('/')
                if p not in dirs:
                    dirs.append(p)
        crowd = rng.random() < 0.02
        if crowd:
            # a folder of many folders, a file or none in each
            p = rng.choice(dirs)
            for j in range(rng.randint(40, 90)):
                dirs.append((p + '/' + rng.choice(['w%d', 'Text %d', '%d']) % j).lstrip('/'))
            dirs = sorted(set(dirs), key=dirs.index)
        used = set()
        uid = 0
        for _ in range(rng.choice([0, 1, 2, 3, 4, 7, 15]) if rng.random() < 0.97 and not crowd else 60):
            d = rng.choice(dirs) if crowd or rng.random() < 0.7 else dirs[-1]
            stem = rng.choice(['a', 'A', 'b', 'data', 'Data', 'x.y', u'\u00e9t\u00e9', 'f%d' % uid, 'g%d' % uid, '.a', '_a', '~a', '#a#', 'a~'])
            ext = rng.choice(exts)
            rel = (d + '/' + stem + ext).lstrip('/')
            if rel in dirs or rel in used:
                continue
            uid += 1
            used.add(rel)
            content = {}
            if kind == 'json':
                for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.99 else 80):
                    # items recur across files, coders are unique to the file
                    content['t%d' % rng.randint(0, 4 if rng.random() < 0.9 else 200)] = dict(('u%d_%d' % (uid, j), gen.masses(rng, rng.randint(1, 12)))
                                                              for j in range(rng.choice([1, 2])))
            else:
                content[stem] = dict(('u%d_%d' % (uid, j), gen.masses(rng, rng.randint(1, 12))) for j in range(rng.choice([1, 2, 3])))
            files.append([rel, content])
        for rel, content in list(files):
            # the same file once more in another directory
            other = (rng.choice(dirs) + '/' + os.path.basename(rel)).lstrip('/')
            if rng.random() < 0.15 and os.path.dirname(other) != os.path.dirname(rel) and other not in dirs and other not in used:
                used.add(other)
                files.append([other, dict((i, dict(cs)) for i, cs in content.items())])
        extra = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            d = rng.choice(dirs)
            name = rng.choice(['README.txt', 'json', 'tsv', 'notes', '.json', 'a.json.bak', 'a.ejson', 'c.xml', 'tsv.', 'backup.tsv~',
                               'other.tsv' if kind == 'json' else 'other.json', 'x.jsonl', 'a.tsv.gz'])
            rel = (d + '/' + name).lstrip('/')
            if rel not in dirs and rel.lower() not in used:
                used.add(rel)
                extra.append(rel)
        case = {'kind': kind, 'dirs': dirs[1:], 'files': files, 'extra': extra, 'orders': [rng.randrange(10 ** 6) for _ in range(ctx.scale(4, 8))],
                'existing': rng.random() < 0.25, 'dup': False, 'rel': rng.choice(['', '', '', '', '', 'name', 'dot', 'dot name', 'up']), 'how': rng.choice(['', '', '', 'slash', 'detour', 'object']),
                'link': rng.random() < 0.1}
        if kind == 'json' and len(files) > 1 and rng.random() < 0.2:
            # the same coder codes the same item in two files of one directory
            d0 = os.path.dirname(files[0][0])
            same = [f for f in files[1:] if os.path.dirname(f[0]) == d0]
            if same:
                it = sorted(files[0][1])[0]
                c = sorted(files[0][1][it])[0]
                same[0][1].setdefault(it, {})[c] = [3]
                case['dup'] = True
        yield case


def run(case, ctx):
    d = tempfile.mkdtemp(dir=os.environ['RV_SCRATCH'])
    cwd = os.getcwd()
    try:
        _run(case, ctx, api(), d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def _run(case, ctx, A, d):
    kind = case['kind']
    ctx.feature(kind)
    root = os.path.join(d, 'root')
    os.mkdir(root)
    for p in case['dirs']:
        os.makedirs(os.path.join(root, p), exist_ok=True)
        if p.endswith(('.json', '.tsv')):
            ctx.feature('dir_named_like_file')
        if os.path.basename(p).startswith('.'):
            ctx.feature('hidden_dir')
    expected = {}
    count = 0
    for rel, content in case['files']:
        path = os.path.join(root, rel)
        if case['link']:
            # the file is elsewhere, the tree has a link to it
            ctx.feature('symbolic_link')
            real = os.path.join(d, 'elsewhere%d' % count)
            os.symlink(real, path)
            count += 1
        if kind == 'json':
            with io.open(path, 'w', encoding='utf-8') as f:
                f.write(json.dumps({'segmentation_type': 'linear', 'items': content}))
        else:
            with io.open(path, 'w', encoding='utf-8') as f:
                for (stem, cs) in content.items():
                    f.write('coder\n' + ''.join('%s\t%s\n' % (c, '\t'.join(map(str, m))) for c, m in cs.items()))
        folder = os.path.dirname(rel)
        prefix = [p for p in folder.split('/') if p]
        for it, cs in content.items():
            name = ','.join(prefix + [it])
            if name in expected:
                ctx.feature('merged_coders')
            expected.setdefault(name, {}).update(dict((c, tuple(m)) for c, m in cs.items()))
            count += 1
        ext = os.path.splitext(rel)[1]
        for cond, f in ((bool(prefix), 'nested'), (len(prefix) > 1, 'deep'), (ext != ext.lower(), 'upper_case_extension'),
                        (ext.lower() in ('.jsn', '.csv'), 'second_extension')):
            if cond:
                ctx.feature(f)
    stems = [os.path.splitext(r)[0] for r, _ in case['files']]
    children = {}
    for p in case['dirs']:
        children.setdefault(os.path.dirname(p), []).append(p)
    if any(len(x) > 40 for x in children.values()):
        ctx.feature('over_40_folders_in_one')
    if len(expected) > 40:
        ctx.feature('over_40_items')
    for cond, f in ((len(set(stems)) < len(stems), 'same_stem'), (len(case['files']) > 6, 'many_files'), (len(case['files']) > 40, 'over_40_files'),
                    (any(r.count('/') > 8 for r, _ in case['files']), 'over_8_levels'),
                    (any(os.path.basename(r).startswith('.') for r, _ in case['files']), 'hidden_file'),
                    (any('/' in r for r, _ in case['files']) and any('/' not in r for r, _ in case['files']), 'files_and_dirs_mixed')):
        if cond:
            ctx.feature(f)
    if len(set(r.lower() for r, _ in case['files'])) < len(case['files']):
        ctx.feature('names_differing_in_case')
    contents = [(os.path.basename(r), json.dumps(c, sort_keys=True)) for r, c in case['files']]
    if len(set(contents)) < len(contents):
        ctx.feature('same_file_twice')
    for rel in case['extra']:
        with io.open(os.path.join(root, rel), 'w') as f:
            f.write(u'this is not data\n1\t2\n')
        ctx.feature('unrelated_files')
        if rel.endswith('other.tsv') or rel.endswith('other.json'):
            ctx.feature('other_type_present')
        if '.' not in os.path.basename(rel):
            ctx.feature('no_extension')
    if any(not any(r.startswith(p + '/') for r, _ in case['files']) for p in case['dirs']):
        ctx.feature('empty_dir')
    if len(case['files']) > 1:
        ctx.nontrivial()
    orders = ctx.extra.setdefault('distinct_listing_orders', [])
    seen = set()
    info = dict(files=[f for f, _ in case['files']], dirs=case['dirs'], extra=case['extra'], kind=kind)
    filetype = kind
    where = root
    if case['rel']:
        ctx.feature('relative_path')
        ctx.feature('relative_path_' + case['rel'].replace(' ', '_'))
        os.chdir(root if case['rel'] in ('dot', 'up') else d)
        where = {'name': 'root', 'dot': '.', 'dot name': os.path.join('.', 'root'), 'up': os.path.join('..', 'root')}[case['rel']]
    if case['how'] == 'slash':
        ctx.feature('trailing_slash')
        where += '/'
    elif case['how'] == 'detour':
        ctx.feature('detour_path')
        where = os.path.join(where, '..', '.', 'root')
    elif case['how'] == 'object':
        ctx.feature('path_object')
        where = pathlib.Path(where)
    for k, seed in enumerate(case['orders']):
        kw = {}
        start = {}
        if case['existing'] and k % 2 == 0:
            ctx.feature('existing_dataset')
            # an empty dataset is a dataset, too
            start = {'already': {'here': (1, 2)}} if seed % 3 else {}
            if seed % 5 < 2 and expected:
                # an item of the same name, by another coder
                ctx.feature('existing_dataset_overlapping')
                start = {sorted(expected)[seed % len(expected)]: {'here': (1, 2)}}
            ctx.feature('existing_dataset_filled' if start else 'existing_dataset_empty')
            kw['dataset'] = A.Dataset(dict((i, dict(c)) for i, c in start.items()))
        with Listing(seed, seen) as listing:
            st, v = ctx.outcome(A.load_nested_folders_dict, where, filetype, **kw)
        ctx.feature('listing_permuted')
        if case['dup']:
            ctx.feature('duplicate_refused')
            ctx.expect(st == 'error' and isinstance(v, A.DataIOError), 'a coding occurring twice gave %s' % short(v), **info)
            continue
        ctx.expect(st == 'ok', 'loading raised %r' % (v,), **info)
        ctx.expect(isinstance(v, A.Dataset), 'loading returned %s' % short(v), **info)
        want = dict(expected)
        for it, cs in start.items():
            want[it] = dict(expected.get(it, {}), **cs)
        got = dict((it, dict(cs)) for it, cs in v.items())
        ctx.expect(got == want, 'loaded %s, expected %s (listing order %d)' % (short(got), short(want), seed), **info)
        ctx.expect(set(v.coders) == set(c for cs in want.values() for c in cs), 'coders are %r' % (v.coders,), **info)
        if kw:
            ctx.expect(v is kw['dataset'] or dict((i, dict(c)) for i, c in kw['dataset'].items()) == want,
                       'the dataset passed in was not extended', **info)
        if k:
            ctx.feature('loaded_twice')
    orders.extend('%d/%s' % (ctx.evaluations, s) for s in list(seen)[:6])
    del orders[5000:]
