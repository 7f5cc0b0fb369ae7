"""C23: every file opened by a load or save is closed again, whatever fails."""
import builtins
import codecs
import errno
import gc
import io
import json
import os
import shutil
import tempfile
import warnings
from rv import gen
from rv.core import api, short

INTERPRETERS = 'pypy'
LEVEL = 'fault_enumeration'
REQUIRED = ['op_json', 'op_tsv', 'op_positions', 'op_output', 'op_output_dir', 'op_folder', 'valid', 'bad_content', 'missing_file',
            'fault_open', 'fault_read', 'fault_write', 'fault_close', 'persistent_fault', 'short_transfers', 'failed_with_file_open',
            'succeeded', 'unserialisable', 'big_file', 'folder_fails_midway', 'file_opened', 'overwrites', 'several_reads', 'nested_or_raising', 'field_too_long']
RULE = ('random load and save calls on valid and damaged files; the operations each performs on its files (open, read, write, seek, '
        'close) are counted in a clean run, then the call is repeated with an I/O error injected at every one of them, once '
        'and from there on; after each call every opened file must be closed (file objects kept alive, collector off) and '
        'the descriptor table and the directory compared; non-trivial: at least one file was opened')
ASSUMPTIONS = ['files are opened through the built-in open, io.open or anything on top of them; other ways only show in the '
               'descriptor table']
OPS = ['json', 'json', 'tsv', 'positions', 'output', 'output', 'output_dir', 'folder', 'folder']


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.scale(170, 4200)):
        op = OPS[i % len(OPS)]
        c = {'op': op, 'seed': rng.randrange(10 ** 9)}
        ds = gen.dataset(rng, items=rng.choice([1, 1, 2, 4]), coders=rng.choice([1, 2, 3]), nmax=12, full=False, many=False)
        if rng.random() < 0.15:
            # several buffers long
            ds = {'big item': dict(('c%d' % k, gen.masses(rng, 900)) for k in range(rng.randint(20, 30)))}
        c['ds'] = ds
        if op in ('json', 'folder'):
            c['bad'] = rng.choice([None, None, 'truncated', 'type', 'no_type', 'no_items', 'list', 'items_list', 'masses_int', 'empty',
                                   'latin1', 'missing', 'directory',
                                   'deep', 'values'])
        elif op in ('tsv', 'positions'):
            c['bad'] = rng.choice([None, None, 'word', 'blank', 'nul', 'latin1', 'empty', 'missing', 'float', 'directory', 'last', 'wide'])
        else:
            c['bad'] = rng.choice([None, None, None, 'unserialisable', 'late', 'no_folder', 'surrogate', 'key', 'deep', 'circular'])
            c['exists'] = rng.random() < 0.4
        if op == 'folder':
            c['filetype'] = rng.choice(['json', 'tsv'])
            c['files'] = rng.randint(1, 4)
            c['at'] = rng.randrange(c['files'])
            c['dup'] = rng.random() < 0.15
            if c['filetype'] == 'tsv':
                c['bad'] = rng.choice([None, 'word', 'blank', 'latin1', 'last'])
        yield c


# ------------------------------------------------------------- interposed open
class Fault(OSError):
    pass


class Monitor(object):
    """counts the file operations of one call, fails the chosen ones, keeps every file"""

    def __init__(self, fail=None, persistent=False, short_io=False, roots=()):
        self.fail, self.persistent, self.short_io = fail, persistent, short_io
        self.ops = []
        self.files = []
        self.written = []
        self.failed = []

    def op(self, kind, path):
        self.ops.append(kind)
        k = len(self.ops)
        if self.fail is not None and (k == self.fail or (self.persistent and k >= self.fail)):
            self.failed.append(kind)
            return True
        return False

    def error(self):
        return Fault(errno.EIO, 'injected I/O error')

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if self.op('open', file):
            raise self.error()
        if hasattr(file, '__fspath__'):
            file = os.fspath(file)
        m = mode.replace('U', '').replace('t', '')
        if 'r' not in m and 'w' not in m and 'a' not in m and 'x' not in m:
            m = 'r' + m
        binary = 'b' in m
        m = m.replace('b', '')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            raw = MonitoredFile(file, m, closefd, opener)
        raw.monitor = self
        raw.armed = True
        self.files.append(raw)
        if 'r' not in m or '+' in m:
            self.written.append(os.path.abspath(file))
        if buffering == 0 and binary:
            return raw
        cls = io.BufferedRandom if '+' in m else io.BufferedReader if 'r' in m else io.BufferedWriter
        buf = cls(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        self.files.append(buf)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        self.files.append(text)
        return text

    def __enter__(self):
        self.real = builtins.open
        builtins.open = self.open
        io.open = self.open
        return self

    def __exit__(self, *exc):
        builtins.open = self.real
        io.open = self.real
        return False


class MonitoredFile(io.FileIO):
    armed = False

    def readinto(self, b):
        if self.armed and self.monitor.op('read', self.name):
            raise self.monitor.error()
        if self.armed and self.monitor.short_io and len(b) > 7:
            data = io.FileIO.read(self, 7)
            b[:len(data)] = data
            return len(data)
        return io.FileIO.readinto(self, b)

    def read(self, size=-1):
        if self.armed and self.monitor.op('read', self.name):
            raise self.monitor.error()
        if self.armed and self.monitor.short_io and size > 7:
            size = 7
        return io.FileIO.read(self, size)

    def readall(self):
        if self.armed and self.monitor.op('read', self.name):
            raise self.monitor.error()
        return io.FileIO.readall(self)

    def write(self, b):
        if self.armed and self.monitor.op('write', self.name):
            raise self.monitor.error()
        if self.armed and self.monitor.short_io and len(b) > 13:
            b = bytes(b)[:13]
        return io.FileIO.write(self, b)

    def truncate(self, size=None):
        if self.armed and self.monitor.op('truncate', self.name):
            raise self.monitor.error()
        return io.FileIO.truncate(self, size)

    def close(self):
        # the descriptor is released in any case, as close(2) does; then the error is reported
        if self.armed and not self.closed and self.monitor.op('close', self.name):
            io.FileIO.close(self)
            raise self.monitor.error()
        io.FileIO.close(self)


def descriptors():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            out[n] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    return dict((n, p) for n, p in out.items() if not p.startswith('/proc/'))


def tree(d):
    out = {}
    for folder, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.join(folder, x)] = None
        for x in files:
            p = os.path.join(folder, x)
            with REAL_OPEN(p, 'rb') as f:
                out[p] = f.read()
    return out


REAL_OPEN = builtins.open


# ------------------------------------------------------------------- contents
class Raising(dict):
    def items(self):
        raise self['at']('the property cannot be read')


def json_bytes(ds, bad):
    o = {'segmentation_type': 'linear', 'items': ds}
    if bad == 'type':
        o['segmentation_type'] = 'other'
    elif bad == 'no_type':
        del o['segmentation_type']
    elif bad == 'no_items':
        del o['items']
    elif bad == 'list':
        o = [o]
    elif bad == 'items_list':
        o['items'] = [1, 2]
    elif bad == 'values':
        o['items'] = dict(ds, zz=[[1, 2]])
    elif bad == 'masses_int':
        o['items'] = dict(ds, zz={'c': 5})
    raw = json.dumps(o).encode('utf-8')
    if bad == 'truncated':
        raw = raw[:len(raw) * 2 // 3]
    elif bad == 'deep':
        raw = b'{"segmentation_type": "linear", "items": ' + b'[' * 20000
    elif bad == 'empty':
        raw = b''
    elif bad == 'latin1':
        raw = raw[:-1] + b', "\xe9\xff": 1}'
    return raw


def tsv_bytes(ds, bad):
    it = sorted(ds)[0]
    lines = ['coder\t1\t2'] + ['%s\t%s' % (c.replace('\t', ' '), '\t'.join(map(str, m))) for c, m in sorted(ds[it].items())]
    if bad == 'word':
        lines.insert(1, 'x\tfive\t2')
    elif bad == 'last':
        lines.append('x\t2\t3\toops')
    elif bad == 'float':
        lines.append('x\t2.5')
    elif bad == 'blank':
        lines.insert(1, '')
    elif bad == 'nul':
        lines.append('x\t\x002')
    elif bad == 'wide':
        # longer than the csv module allows
        lines.append('x' * 140000 + '\t2')
    raw = '\n'.join(lines).encode('utf-8') + b'\n'
    if bad == 'latin1':
        raw += b'x\xe9\xff\t2\n'
    elif bad == 'empty':
        raw = b''
    return raw


def put(path, raw):
    with REAL_OPEN(path, 'wb') as f:
        f.write(raw)


def prepare(case, A, d):
    """-> (callable, arguments, path the call may write or None)"""
    op, bad = case['op'], case.get('bad')
    ds = case['ds']
    if op in ('json', 'tsv', 'positions'):
        path = os.path.join(d, 'data.json' if op == 'json' else 'data.tsv')
        if bad == 'directory':
            os.mkdir(path)
        elif bad != 'missing':
            put(path, json_bytes(ds, bad) if op == 'json' else tsv_bytes(ds, bad))
        fn = {'json': A.input_linear_mass_json, 'tsv': A.input_linear_mass_tsv, 'positions': A.input_linear_positions_tsv}[op]
        return fn, (path,), None
    if op == 'folder':
        ext = '.' + case['filetype']
        sub = os.path.join(d, 'sub')
        os.mkdir(sub)
        for k in range(case['files']):
            b = bad if k == case['at'] else None
            if b in ('missing', 'directory'):
                b = None
            one = dict((it + str(0 if case['dup'] else k), cs) for it, cs in ds.items())
            raw = json_bytes(one, b) if ext == '.json' else tsv_bytes(one, b)
            put(os.path.join(sub if k % 2 else d, 'f%d%s' % (k, ext)), raw)
        put(os.path.join(d, 'notes.txt'), b'unrelated')
        return A.load_nested_folders_dict, (d, case['filetype']), None
    data = dict((it, dict(cs)) for it, cs in ds.items())
    props = {}
    if bad == 'unserialisable':
        data = dict(data, aaa={'c': set([1])})
    elif bad == 'late':
        props['zzz'] = object()
    elif bad == 'deep':
        # as a structure nested too deeply would, or one that is read from elsewhere
        props['zzz'] = Raising(at=RecursionError if len(ds) % 2 else LookupError)
    elif bad == 'circular':
        props['loop'] = {}
        props['loop']['again'] = props['loop']
    elif bad == 'surrogate':
        props['x'] = u'\ud800'
    elif bad == 'key':
        data[(1, 2)] = {'c': [1]}
    dataset = A.Dataset(data, properties=props)
    if op == 'output_dir':
        target = d
        path = os.path.join(d, 'output.json')
    else:
        path = target = os.path.join(d, 'missing folder', 'o.json') if bad == 'no_folder' else os.path.join(d, 'o.json')
    if case['exists'] and bad != 'no_folder':
        put(path, b'{"old": 1}' * 50)
    return A.output_linear_mass_json, (target, dataset), path


def once(case, ctx, A, d, **faults):
    """one monitored call in a directory of its own"""
    place = os.path.join(d, 'w')
    os.mkdir(place)
    try:
        fn, args, target = prepare(case, A, place)
        before, fds = tree(place), descriptors()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with Monitor(**faults) as mon:
                st, v = ctx.outcome(fn, *args)
        info = dict(operation=case['op'], damage=case.get('bad'), faults=faults, operations=mon.ops[-30:],
                    outcome=v if st == 'error' else 'returned')
        left = [f for f in mon.files if not f.closed]
        raws = [f for f in mon.files if isinstance(f, MonitoredFile)]
        for f in raws:
            ctx.events['file_opened'] += 1
            f.armed = False
        open_raw = [f.name for f in raws if not f.closed]
        after_fds = descriptors()
        leaked = sorted(p for n, p in after_fds.items() if n not in fds)
        for f in reversed(mon.files):
            try:
                f.close()
            except Exception:
                pass
        ctx.expect(not open_raw, 'files still open after the call: %r' % open_raw, **info)
        ctx.expect(not leaked, 'descriptors still open after the call: %r' % leaked, **info)
        after = tree(place)
        allowed = set([target]) if target else set()
        changed = [p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0)]
        ctx.expect(set(changed) <= allowed, 'changed files: %r, the caller named %r' % (
            sorted(set(changed) - allowed), target), **info)
        for p in mon.written:
            ctx.expect(p in allowed or not os.path.exists(p), 'wrote to %r, the caller named %r' % (p, target), **info)
        ctx.events['monitored_call'] += 1
        ctx.events['file_operation'] += len(mon.ops)
        if raws:
            ctx.feature('file_opened')
            ctx.nontrivial()
            if st == 'error':
                ctx.feature('failed_with_file_open')
        if st == 'ok':
            ctx.feature('succeeded')
        if mon.ops.count('read') > 3:
            ctx.feature('several_reads')
        for k in mon.failed:
            ctx.feature('fault_' + k)
        return st, v, mon
    finally:
        shutil.rmtree(place)


def run(case, ctx):
    A = api()
    enabled = gc.isenabled()
    gc.collect() if ctx.evaluations % 20 == 0 else None
    gc.disable()
    d = tempfile.mkdtemp(dir=os.environ['RV_SCRATCH'])
    try:
        st, v, mon = once(case, ctx, A, d)
        ctx.feature('op_' + case['op'], 'valid' if not case.get('bad') else 'missing_file' if case['bad'] == 'missing' else 'bad_content')
        for cond, f in ((case.get('bad') in ('unserialisable', 'late', 'key'), 'unserialisable'), ('big item' in case['ds'], 'big_file'),
                        (case.get('exists'), 'overwrites'), (case.get('bad') == 'deep', 'nested_or_raising'), (case.get('bad') == 'wide', 'field_too_long'),
                        (case['op'] == 'folder' and st == 'error', 'folder_fails_midway')):
            if cond:
                ctx.feature(f)
        once(case, ctx, A, d, short_io=True)
        ctx.feature('short_transfers')
        # an error at every single operation, once and lasting
        n = len(mon.ops)
        points = list(range(1, n + 1))
        if n > 40:
            points = sorted(ctx.rng.sample(points, 30) + [1, 2, n - 1, n])
        for k in points:
            once(case, ctx, A, d, fail=k)
            ctx.feature('persistent_fault')
            once(case, ctx, A, d, fail=k, persistent=True)
        ctx.extra['fault_points'] = ctx.extra.get('fault_points', 0) + 2 * len(points)
    finally:
        shutil.rmtree(d)
        if enabled:
            gc.enable()
