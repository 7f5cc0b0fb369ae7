"""C21: delimited files are read completely and exactly."""
import io
import os
import shutil
import tempfile
from rv import gen, oracle
from rv.core import api, short
from rv.checks import common

INTERPRETERS = 'pypy'
REQUIRED = ['tab', 'comma', 'semicolon', 'pipe', 'crlf', 'cr', 'no_final_newline', 'uneven_rows', 'wide', 'tall', 'over_256_rows', 'over_65536_columns', 'positions',
            'header_wider', 'header_narrower', 'header_only', 'dotted_name', 'unicode_coder', 'hidden_name', 'one_row',
            'header_like_data', 'big_numbers', 'numeric_coders', 'spaces_in_cells', 'over_256_columns', 'read_again',
            'quoted_coder', 'blank_line_between', 'blank_line_at_end', 'duplicate_coder', 'cell_no_integer', 'empty_cell', 'empty_cell_at_end',
            'odd_coder', 'empty_coder', 'coder_with_blanks',
            'dotted_directory'] + ['path_' + p for p in common.PATHS if p]
RULE = ('random tables (delimiters, line endings, uneven rows, header shapes, coder names, file names) read as masses and as '
        'position labels, each twice; the dataset compared with the table; non-trivial: at least two rows')
ASSUMPTIONS = ['the first line is the header; the header has at least one cell']
ODD = ['', ' ', ' lead', 'trail ', '#1', '# note', '-', '0', 'None', 'coder', 'a"b', "it's", '"', u'\u00e9', u'e\u0301', '//', ';', 'x\ty', 'two\nlines', '1.5',
       u'\ufeffx', '!', '%', '1e3', 'nan', 'True']
DELIMS = {'tab': '\t', 'comma': ',', 'semicolon': ';', 'pipe': '|', 'space': ' '}
NAMES = ['data.tsv', 'hearst.1997.tsv', 'plain', 'x.csv', '.hidden', u'k\u00f6ln.tsv', 'a b.tsv', 'UPPER.TSV', 'double.tsv.csv',
         'trailing.']
DIRECTORIES = ['', '', 'hearst.1997', 'v1.0', 'corpus', 'x.tsv', '.hidden', 'a b', u'k\u00f6ln']


def cases(ctx):
    rng = ctx.rng
    vast = False
    for _ in range(ctx.scale(1500, 30000)):
        pos = rng.random() < 0.4
        rows = rng.choice([0, 1, 1, 2, 3, 4, 7, 30]) if rng.random() < 0.95 else rng.choice([150, 150, rng.randint(257, 1500)])
        width = rng.choice([1, 3, 8, 20, 60]) if rng.random() < 0.95 else 300
        if ctx.worker == 0 and not vast:
            vast, rows, width = True, 3, 66000
        if rows > 150:
            width = min(width, 8)
        table = []
        kind = rng.choice(['c', 'num', 'uni', 'long', 'quoted', 'odd'])
        odd = rng.sample(ODD, len(ODD))
        for i in range(rows):
            name = {'c': 'coder%d' % i, 'num': str(i + 1), 'uni': u'\u00c9milie %d' % i, 'long': 'x' * (i + 1),
                    'quoted': 'last%d, first' % i,
                    'odd': odd[i] if i < len(odd) else 'odd%d' % i}[kind]
            w = width if width > 1000 or rng.random() < 0.4 else rng.randint(1, width)
            if pos:
                m = gen.masses(rng, w)
                cells = oracle.masses_to_positions(m)
                off = rng.choice([0, 0, -1, 300, 7])
                cells = [x + off for x in cells]
                if rng.random() < 0.2:
                    cells = [rng.choice([1, 2]) for _ in range(w)]
            else:
                cells = [rng.choice([1, 2, 3, rng.randint(1, 30), rng.randint(1, 10 ** 6)]) for _ in range(w)]
            table.append([name, cells])
        yield {'rows': table, 'pos': pos, 'delim': rng.choice(sorted(DELIMS)), 'eol': rng.choice(['\n', '\n', '\r\n', '\r']),
               'final': rng.random() < 0.75, 'name': rng.choice(NAMES), 'path': rng.choice(common.PATHS), 'dir': rng.choice(DIRECTORIES),
               'header': rng.choice(['fit', 'wide', 'narrow', 'one', 'data']), 'kw': rng.random() < 0.5,
               'pad': rng.random() < 0.15,
               'spoil': [rng.choice(['duplicate', 'cell']), rng.randrange(1000), rng.randrange(12)] if rng.random() < 0.4 else None,
               'blank': sorted(rng.randint(0, rows) for _ in range(rng.choice([0, 0, 0, 0, 0, 1, 2])))}


def run(case, ctx):
    A = api()
    d = tempfile.mkdtemp(dir=os.environ['RV_SCRATCH'])
    cwd = os.getcwd()
    try:
        _run(case, ctx, A, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def cell(text, delim):
    if delim in text or '"' in text or '\n' in text:
        return '"' + text.replace('"', '""') + '"'
    return text


def _run(case, ctx, A, d):
    delim = DELIMS[case['delim']]
    rows = case['rows']
    width = max([len(c) for _, c in rows] + [1])
    head = {'fit': ['coder'] + ['%d' % i for i in range(width)], 'wide': ['coder'] + ['h%d' % i for i in range(width + 5)],
            'narrow': ['coder', 'x'], 'one': ['coder'], 'data': ['coder0'] + ['%d' % (i + 1) for i in range(width)]}[case['header']]
    pad = ' ' if case['pad'] and case['delim'] != 'space' else ''
    lines = [delim.join(head)]
    for i, (name, cells) in enumerate(rows):
        for _ in range(case['blank'].count(i)):
            ctx.feature('blank_line_between')
            lines.append('')
        lines.append(delim.join([cell(name, delim)] + [pad + str(c) for c in cells]))
        if delim in name:
            ctx.feature('quoted_coder')
    for _ in range(case['blank'].count(len(rows))):
        ctx.feature('blank_line_at_end')
        lines.append('')
    text = case['eol'].join(lines) + (case['eol'] if case['final'] else '')
    if case.get('dir'):
        d = os.path.join(d, case['dir'])
        os.mkdir(d)
        ctx.feature('dotted_directory' if '.' in case['dir'] else 'plain_directory')
    path = common.path_form(ctx, case.get('path', ''), d, case['name'])
    with io.open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    item = os.path.splitext(case['name'])[0] or case['name']
    ctx.feature(case['delim'], {'\n': 'lf', '\r\n': 'crlf', '\r': 'cr'}[case['eol']])
    ctx.feature({'wide': 'header_wider', 'narrow': 'header_narrower', 'data': 'header_like_data'}.get(case['header'], 'header_' + case['header']))
    for cond, f in ((not case['final'], 'no_final_newline'), (len(set(len(c) for _, c in rows)) > 1, 'uneven_rows'),
                    (width > 50, 'wide'), (width > 256, 'over_256_columns'), (width > 65536, 'over_65536_columns'), (len(rows) > 20, 'tall'), (len(rows) > 256, 'over_256_rows'), (case['pos'], 'positions'),
                    (not rows, 'header_only'), (case['name'].count('.') > 1, 'dotted_name'), (case['name'][0] == '.', 'hidden_name'),
                    (len(rows) == 1, 'one_row'), (any(x > 1000 for _, c in rows for x in c), 'big_numbers'), (pad, 'spaces_in_cells'),
                    (any(ord(ch) > 127 for n, _ in rows for ch in n), 'unicode_coder'),
                    (any(n in ODD for n, _ in rows), 'odd_coder'), (any(not n for n, _ in rows), 'empty_coder'),
                    (any(n != n.strip() for n, _ in rows), 'coder_with_blanks'),
                    (any(n.isdigit() for n, _ in rows), 'numeric_coders')):
        if cond:
            ctx.feature(f)
    if len(rows) > 1:
        ctx.nontrivial()
    info = dict(text=text, name=case['name'])
    kw = {}
    args = [path]
    if case['delim'] != 'tab' or case['kw']:
        if case['kw']:
            kw['delimiter'] = delim
        else:
            args.append(delim)
    masses = dict((n, tuple(c)) for n, c in rows)
    runs = dict((n, tuple(oracle.positions_to_masses(c))) for n, c in rows)

    def judge(got, want, what):
        ctx.expect(isinstance(got, A.Dataset), '%s is a %s' % (what, type(got).__name__), **info)
        plain = dict((it, dict(cs)) for it, cs in got.items())
        ctx.expect(plain == {item: want}, '%s is %s, expected %s' % (what, short(plain), short({item: want})), **info)
        for s in got[item].values():
            ctx.expect(isinstance(s, tuple) and all(type(x) is int for x in s), '%s: codings are %r' % (what, s), **info)
        ctx.expect(set(got.coders) == set(want), '%s: coders are %r' % (what, got.coders), **info)
    judge(ctx.call(A.input_linear_mass_tsv, *args, **kw), masses, 'the table')
    judge(ctx.call(A.input_linear_positions_tsv, *args, **kw), runs, 'the table as positions')
    ctx.feature('read_again')
    judge(ctx.call(A.input_linear_mass_tsv, *args, **kw), masses, 'the table read again')
    with io.open(path, encoding='utf-8', newline='') as f:
        ctx.expect(f.read() == text, 'reading changed the file', **info)
    # the same table with a defect is refused, whatever its place
    if rows and case.get('spoil'):
        how, where, what = case['spoil']
        i = where % len(rows)
        bad = [[n, [str(c) for c in cs]] for n, cs in rows]
        if how == 'duplicate':
            ctx.feature('duplicate_coder')
            bad.insert((where // 7) % (len(rows) + 1), [bad[i][0], list(bad[i][1]) if what % 2 else ['1']])
        else:
            ctx.feature('cell_no_integer')
            cs = bad[i][1]
            wrong = ['x', '3.5', '-', '1,5' if delim != ',' else 'y', 'None', '0x1', '', '1 2' if delim != ' ' else 'nan', '1e3', 'True',
                     "''", '#'][what]
            at = (where // 7) % (len(cs) + 2)
            if at >= len(cs):
                # a cell too many at the end of the row, as a trailing delimiter makes
                cs.append(wrong)
            else:
                cs[at] = wrong
            ctx.feature('empty_cell_at_end' if cs[-1] == '' else 'empty_cell' if not wrong else 'wrong_text')
        text = case['eol'].join([delim.join(head)] + [delim.join([cell(n, delim)] + cs) for n, cs in bad])
        with io.open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        for fn in (A.input_linear_mass_tsv, A.input_linear_positions_tsv):
            st, v = ctx.outcome(fn, *args, **kw)
            ctx.expect(st == 'error' and (how != 'duplicate' or isinstance(v, A.DataIOError)),
                       '%s read a table with %s: %s' % (fn.__name__, 'a coder given twice' if how == 'duplicate' else
                                                        'a cell that is no integer', short(v)), text=text)
