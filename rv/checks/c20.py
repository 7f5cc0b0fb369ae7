"""C20: JSON files round-trip and malformed ones are refused."""
import codecs
import io
import json
import os
import shutil
import tempfile
import unicodedata
from rv import gen
from rv.core import api, short
from rv.checks import common

INTERPRETERS = 'pypy'
CALLED = ['', '', 'corpus.json', 'output.json', '.json', 'a b', 'noext', 'x.tsv']
REQUIRED = ['round_trip', 'directory', 'unicode', 'properties', 'overwrite', 'second_generation', 'truncated', 'wrong_type',
            'missing_type', 'missing_items', 'not_json', 'not_an_object_refused', 'items_no_object_refused', 'item_without_codings', 'crlf', 'list_codings', 'many_items', 'over_1_megabyte', 'over_100_items', 'over_300_segments', 'over_40_coders',
            'flipped_byte', 'samples', 'property_named_like_field', 'decomposed', 'control_characters', 'surrounding_blanks', 'lone_surrogates'] + ['directory_' + c for c in CALLED if c] + ['path_' + p for p in common.PATHS if p]
RULE = ('random datasets (Unicode labels, properties, lists and tuples, many items) written to files and directories and '
        'read back, twice; then corrupted: every truncation class, removed and altered fields, random bytes; '
        'non-trivial: a round trip of at least two codings, or a corruption of a valid file')
ASSUMPTIONS = ['item and coder labels are strings, properties JSON-serialisable; a property named like a structural field gives way to it']
ALPHA = u'abcXYZ019 _-.,;:"\'\\/{}[]\t\u00e9\u00fc\u4e2d\u6587\u0439\U0001f600\u200b'
# what text handling likes to change: composition, byte order marks, line ends, control characters
ODD = [u'e\u0301', u'\u0301', u'\u212b', u'\ufb01', u'\ufeff', u'\x7f', u'\x85', u'\u2028', u'\r', u'\n', u'\r\n', u'\x00', u'\x1b', u'\xa0', u' ',
       u'\u0130', u'\u00df', u'\udcff']


def label(rng):
    if rng.random() < 0.2:
        parts = [rng.choice(ALPHA) for _ in range(rng.randint(0, 3))] + [rng.choice(ODD) for _ in range(rng.randint(1, 2))]
        rng.shuffle(parts)
        return u''.join(parts)
    return u''.join(rng.choice(ALPHA) for _ in range(rng.randint(1, 9)))


def cases(ctx):
    rng = ctx.rng
    for _ in range(ctx.scale(450, 9000)):
        ds = {}
        for _ in range(rng.choice([1, 1, 2, 3, 8, 30]) if rng.random() < 0.98 else 200):
            n = rng.randint(1, 40) if rng.random() < 0.998 else rng.randint(600, 4000)
            ds[label(rng)] = dict((label(rng), gen.masses(rng, n)) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 6]) if rng.random() < 0.995 else 60))
        props = {}
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            props[label(rng)] = rng.choice([1, 2.5, None, True, u'v\u00e9', [1, [2]], {'x': {'y': 1}}, '', 10 ** 30, False, -1.5e-9, 1e300, float('inf'), [float('-inf')], 2.0, -0.0, 0.1 + 0.2])
        if rng.random() < 0.12:
            props[rng.choice(['items', 'segmentation_type'])] = rng.choice([3, None, 'linear', 'other', {}, {'a': {'c': [1, 2]}}, []])
        yield {'k': 'trip', 'ds': ds, 'props': props, 'dir': rng.random() < 0.3, 'path': rng.choice(common.PATHS), 'kind': rng.choice(['list', 'tuple']),
               'called': rng.choice(CALLED), 'slash': rng.random() < 0.2,
               'name': rng.choice(['a.json', u'd\u00e9j\u00e0 vu.json', 'noext', 'x.y.z.json']), 'again': rng.random() < 0.4,
               'crlf': rng.random() < 0.2, 'cuts': [rng.random() for _ in range(ctx.scale(3, 12))],
               'flips': [[rng.random(), rng.randrange(256)] for _ in range(3)]}
    for k in common.share(ctx, range(1 if ctx.quick() else 8)):
        # files of megabytes
        ds = dict(('item %d' % i, dict(('c%d' % j, [rng.randint(1, 99) for _ in range(1500)]) for j in range(5))) for i in range(24))
        yield {'k': 'trip', 'ds': ds, 'props': {}, 'dir': False, 'kind': 'list', 'called': '', 'slash': False, 'name': 'a.json', 'again': k % 2 == 0,
               'crlf': k % 3 == 0, 'cuts': [rng.random()], 'flips': [[rng.random(), rng.randrange(256)]]}
    for k in range(6):
        yield {'k': 'sample', 'i': k}


def write(path, text):
    with io.open(path, 'w', encoding='utf-8') as f:
        f.write(text)


def refused(ctx, A, path, what, **info):
    st, v = ctx.outcome(A.input_linear_mass_json, path)
    ctx.expect(st == 'error' and isinstance(v, A.DataIOError),
               '%s: reading gave %s, expected a data error' % (what, short(v)), **info)


def compare(ctx, A, got, data, props, info):
    ctx.expect(isinstance(got, A.Dataset), 'read a %s' % type(got).__name__, **info)
    plain = dict((it, dict(cs)) for it, cs in got.items())
    want = dict((it, dict((c, tuple(s)) for c, s in cs.items())) for it, cs in data.items())
    ctx.expect(plain == want, 'read %s, expected %s' % (short(plain), short(want)), **info)
    for cs in plain.values():
        for s in cs.values():
            ctx.expect(isinstance(s, tuple) and all(isinstance(x, int) for x in s), 'masses read as %r' % (s,), **info)
    ctx.expect(set(got.coders) == set(c for cs in want.values() for c in cs), 'coders read as %r' % (got.coders,), **info)
    wp = dict(props)
    wp.pop('items', None)
    wp['segmentation_type'] = 'linear'
    ctx.expect(got.properties == wp, 'properties read as %r, expected %r' % (got.properties, wp), **info)
    ctx.expect(got.boundary_format == A.BoundaryFormat.mass, 'format is %r' % (got.boundary_format,), **info)


def run(case, ctx):
    A = api()
    d = tempfile.mkdtemp(dir=os.environ['RV_SCRATCH'])
    cwd = os.getcwd()
    try:
        _run(case, ctx, A, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def _run(case, ctx, A, d):
    if case['k'] == 'sample':
        ctx.feature('samples')
        from rv.core import SAMPLES
        s = A[SAMPLES[case['i']]]
        data = dict((it, dict(cs)) for it, cs in s.items())
        path = os.path.join(d, 's.json')
        ctx.call(A.output_linear_mass_json, path, s)
        compare(ctx, A, ctx.call(A.input_linear_mass_json, path), data, s.properties, dict(sample=SAMPLES[case['i']]))
        return
    seq = list if case['kind'] == 'list' else tuple
    if case['kind'] == 'list':
        ctx.feature('list_codings')
    data, props = case['ds'], case['props']
    ds = A.Dataset(dict((it, dict((c, seq(s)) for c, s in cs.items())) for it, cs in data.items()), properties=dict(props))
    if any(ord(ch) > 127 for it in data for ch in it):
        ctx.feature('unicode')
    for cond, f in ((any(unicodedata.normalize('NFC', it) != it for it in data), 'decomposed'),
                    (any(unicodedata.category(ch) == 'Cc' for it in data for ch in it), 'control_characters'),
                    (any(unicodedata.category(ch) == 'Cs' for it in data for ch in it), 'lone_surrogates'),
                    (any(it != it.strip() for it in data), 'surrounding_blanks')):
        if cond:
            ctx.feature(f)
    if not all(data.values()):
        ctx.feature('item_without_codings')
    if props:
        ctx.feature('properties')
    if 'items' in props or 'segmentation_type' in props:
        ctx.feature('property_named_like_field')
    if len(data) > 5:
        ctx.feature('many_items')
    if len(data) > 100:
        ctx.feature('over_100_items')
    if any(len(s) > 300 for cs in data.values() for s in cs.values()):
        ctx.feature('over_300_segments')
    if any(len(cs) > 40 for cs in data.values()):
        ctx.feature('over_40_coders')
    if sum(len(cs) for cs in data.values()) > 1:
        ctx.nontrivial()
    info = dict(dataset=data, properties=props)
    if case['dir'] and case.get('called'):
        # whatever the directory is called
        ctx.feature('directory_' + case['called'])
        d = os.path.join(d, case['called'])
        os.mkdir(d)
    target = common.path_form(ctx, case.get('path', ''), d, '' if case['dir'] else case['name'])
    if case['dir']:
        target = target.rstrip(os.sep) + (os.sep if case.get('slash') else '')
    path = os.path.join(d, 'output.json' if case['dir'] else case['name'])
    if case['dir']:
        ctx.feature('directory')
    if case['again']:
        # the file exists already and is longer
        ctx.feature('overwrite')
        write(path, u'{"old": "' + u'x' * 100000 + u'"}')
    ctx.call(A.output_linear_mass_json, target, ds)
    ctx.expect(os.listdir(d) == [os.path.basename(path)], 'files written: %r' % os.listdir(d), **info)
    before = dict((it, dict((c, seq(s)) for c, s in cs.items())) for it, cs in data.items())
    ctx.expect(dict(ds) == before and ds.properties == props, 'writing changed the dataset', **info)
    with io.open(path, encoding='utf-8', newline='') as f:
        text = f.read()
    if case['crlf']:
        ctx.feature('crlf')
        with io.open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(text.replace('\r\n', '\n').replace('\n', '\r\n'))
    got = ctx.call(A.input_linear_mass_json, path if case['dir'] else target)
    ctx.feature('round_trip')
    compare(ctx, A, got, data, props, info)
    # written again and read again: nothing accumulates
    ctx.feature('second_generation')
    path2 = os.path.join(d, 'second.json')
    ctx.call(A.output_linear_mass_json, path2, got)
    compare(ctx, A, ctx.call(A.input_linear_mass_json, path2), data, props, info)
    # ---- corruptions
    bad = os.path.join(d, 'bad.json')
    raw = text.encode('utf-8')
    if len(raw) > 1 << 20:
        ctx.feature('over_1_megabyte')
    stripped = len(raw.rstrip())
    for c in case['cuts']:
        n = int(c * stripped)
        with open(bad, 'wb') as f:
            f.write(raw[:n])
        ctx.feature('truncated')
        refused(ctx, A, bad, 'file truncated to %d of %d bytes' % (n, stripped), **info)
    obj = json.loads(text)
    surrogates = u'\udcff' in repr(obj) or u'udcff' in text

    def put(o):
        write(bad, json.dumps(o, ensure_ascii=surrogates) if not isinstance(o, type(u'')) else o)
    x = dict(obj)
    del x['segmentation_type']
    put(x)
    ctx.feature('missing_type')
    refused(ctx, A, bad, 'without segmentation type', **info)
    for wrong in ('hierarchical', 'Linear', '', None, 1, ['linear'], 'linear ', 'linea'):
        x = dict(obj, segmentation_type=wrong)
        put(x)
        ctx.feature('wrong_type')
        refused(ctx, A, bad, 'segmentation type %r' % (wrong,), **info)
    x = dict(obj)
    del x['items']
    put(x)
    ctx.feature('missing_items')
    refused(ctx, A, bad, 'without items', **info)
    for junk in (u'', u'not json', u'{', text + u'}', text[:-1] + u',', u"{'segmentation_type': 'linear', 'items': {}}",
                 u'\x00\x01\x02'):
        put(junk)
        ctx.feature('not_json')
        refused(ctx, A, bad, 'content %r' % junk[-30:], **info)
    for other in (u'[]', u'3', u'"segmentation_type"', u'null', u'true', u'["segmentation_type", "items"]', u'1.5'):
        put(other)
        ctx.feature('not_an_object_refused')
        refused(ctx, A, bad, 'content %s' % other, **info)
    for wrong in ([], ['items'], None, 3, 'items', True, [obj['items']]):
        put(dict(obj, items=wrong))
        ctx.feature('items_no_object_refused')
        refused(ctx, A, bad, 'items %s' % short(wrong), **info)
    # one byte changed: either still a readable file with the same structure, or an error; never a crash of another kind
    for pos, val in case['flips']:
        n = int(pos * stripped)
        changed = raw[:n] + bytes([val]) + raw[n + 1:]
        try:
            o = json.loads(changed.decode('utf-8'))
        except ValueError:
            with open(bad, 'wb') as f:
                f.write(changed)
            ctx.feature('flipped_byte')
            st, v = ctx.outcome(A.input_linear_mass_json, bad)
            ctx.expect(st == 'error', 'byte %d set to %d: read as %s' % (n, val, short(v)), **info)
    # the damage was confined to the bad file
    compare(ctx, A, ctx.call(A.input_linear_mass_json, path2), data, props, info)
