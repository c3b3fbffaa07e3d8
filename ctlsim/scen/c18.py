"""C18: loading a text matrix from a simulated disk with read errors, short and interrupted reads, and malformed contents."""
import builtins
import errno
import io
import os
import random
import shutil
import tempfile

import numpy as np

from .. import ctl
from ..core import SimInterrupt, SimIOError, SimOOM, Violation, to_np

RUNS = {'quick': 8000, 'thorough': 300000}
BATCH = 50
RULE = ('1-6 loads of 1-3 files of random contents (well-formed or malformed) through a simulated disk that reads in chosen chunks and fails, is interrupted or runs out of memory at '
        'chosen reads, then loads without faults. Non-trivial: a fault fired or the contents were malformed.')
STATES = 'hash of (kind of contents, fault, read at which it struck, outcome)'
REAL = 'funcs.loadData, Python text layer, numpy kernels'
STUBS = 'the raw file below the text layer (reads, errors, close), backend module proxy'


def gen(rng, tier, i):
    files = []
    for _ in range(rng.randint(1, 3)):
        files.append(dict(rows=rng.choice([1, 1, 2, 3, 5, 40, 300] if rng.random() < 0.3 else [1, 2, 3, 4]), cols=rng.choice([1, 2, 3, 5, 17]), s=rng.randrange(1 << 30), eol=rng.choice(['\n', '\n', '\n', '\r\n']), last=rng.random() < 0.7,
                          pad=rng.random() < 0.2, bad=rng.choice(['ragged', 'ragged', 'word', 'word', 'tail', 'torn', 'bytes', 'longlast', 'emptytoken', 'blank']) if rng.random() < 0.4 else None))
    ops = []
    for _ in range(rng.randint(1, 8)):
        op = dict(f=rng.randrange(3), chunk=rng.choice([1, 2, 7, 64, 8192, 1 << 20]), s=rng.randrange(1 << 30))
        if rng.random() < 0.6:
            op['disk'] = dict(kind=rng.choice(['eio', 'eio', 'eintr', 'kbd', 'oom', 'open', 'estale']), frac=rng.random())
        if rng.random() < 0.25:
            op['swap'] = rng.randrange(3)
        if rng.random() < 0.2:
            op['fault'] = dict(kind=rng.choice(['oom', 'device', 'kbd']), frac=rng.random())
        ops.append(op)
    return dict(files=files, ops=ops)


def number(rng):
    k = rng.randrange(7)
    if k == 0:
        return str(rng.randint(-5, 5))
    if k == 1:
        return '%.17g' % rng.uniform(-1, 1)
    if k == 2:
        return repr(rng.uniform(-1e3, 1e3))
    if k == 3:
        return '%.3e' % rng.uniform(-1, 1)
    if k == 4:
        return repr(rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300))
    if k == 5:
        return rng.choice(['0', '-0.0', '1', '1e5', '+2.5', '.5', '5.'])
    return '%d' % rng.randrange(1 << 40)


def contents(f):
    """(bytes, expected array, 'raise' or None) of a file."""
    rng = random.Random('c18/%s' % f['s'])
    rows = [[number(rng) for _ in range(f['cols'])] for _ in range(f['rows'])]
    style = rng.randrange(12)
    if style == 0:              # no plain numbers
        rows = [[rng.choice(['nan', 'nan', 'NaN', 'inf', '-inf', '1', 'Infinity']) for _ in r] for r in rows]
    elif style == 1:            # rows without any number, and others
        rows = [['nan' for _ in r] if rng.random() < 0.5 else r for r in rows]
    elif style == 2:            # equal rows, rows of zeros
        rows = [['0' for _ in r] if rng.random() < 0.5 else rows[0] for r in rows]
    elif style == 3:            # equal columns
        rows = [[r[0] for _ in r] for r in rows]
    elif style == 4:            # few values
        rows = [[rng.choice(['0', '-0.0', '1', '-1', '1e-320', '1e308']) for _ in r] for r in rows]
    want = np.array([[float(x) for x in r] for r in rows])
    bad = f['bad']
    must = None
    lines = [' '.join(r) for r in rows]
    i = rng.randrange(len(rows))
    if bad == 'ragged' and len(rows) > 1:
        lines[i] = ' '.join(rows[i] + ['1.5']) if f['cols'] == 1 or rng.random() < 0.5 else ' '.join(rows[i][:-1])
        must = 'raise'
    elif bad == 'longlast' and len(rows) > 1:
        lines[-1] = ' '.join(rows[-1] + ['2', '3'])
        must = 'raise'
    elif bad == 'word':
        j = rng.randrange(f['cols'])
        lines[i] = ' '.join(rows[i][:j] + [rng.choice(['abc', '1.2.3', '--1', '1,5', '0x10', '1e', '#', '1j'])] + rows[i][j + 1:])
        must = 'raise'
    elif bad == 'tail':
        lines.append('end of data')
        must = 'raise'
    elif bad == 'emptytoken':
        lines[i] = lines[i].replace(' ', '  ', 1)
        must = 'either'
    elif bad == 'blank':
        lines.insert(i, '')
        must = 'either'
    if f['pad']:
        lines = [' ' * rng.randrange(3) + l + ' ' * rng.randrange(3) for l in lines]
    b = f['eol'].join(lines).encode() + (f['eol'].encode() if f['last'] else b'')
    if bad == 'torn':
        # the file was cut while it was written: whatever is there is what has to come back, or an error
        b = b[:rng.randint(1, len(b))]
        try:
            ls = b.decode().split('\n')
            if not ls[-1]:
                ls.pop()
            want = [[float(x) for x in l.split()] for l in ls if l.strip()]
            if not want or len(set(len(r) for r in want)) != 1:
                must, want = 'raise' if want else 'either', np.zeros((0,))
            else:
                must, want = None if all(l.strip() for l in ls) else 'either', np.array(want)
        except ValueError:
            must = 'raise'
    elif bad == 'bytes':
        k = rng.randrange(len(b))
        b = b[:k] + b'\xff\xfe' + b[k:]
        must = 'raise'
    return b, want, must


class Raw(io.RawIOBase):
    def __init__(self, disk, data, chunk, plan):
        super().__init__()
        self.disk, self.data, self.chunk, self.plan = disk, data, chunk, plan
        self.pos = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, o, w=0):
        self.pos = o if w == 0 else self.pos + o if w == 1 else len(self.data) + o
        return self.pos

    def readinto(self, buf):
        n = min(len(buf), self.chunk, len(self.data) - self.pos)
        p = self.plan
        if p is not None and not p['done'] and self.pos + n >= p['at']:
            k = max(0, min(n, p['at'] - self.pos))
            if k:
                n = k               # what was read before the error is delivered first
            else:
                if p['kind'] != 'eio' or p['once']:
                    p['done'] = True
                self.disk.sim.fired('disk_' + p['kind'])
                p['hit'] = True
                if p['kind'] == 'eintr':
                    raise InterruptedError(errno.EINTR, 'injected')
                if p['kind'] == 'kbd':
                    raise SimInterrupt('injected interrupt')
                if p['kind'] == 'oom':
                    raise SimOOM('injected')
                raise SimIOError(errno.ESTALE if p['kind'] == 'estale' else errno.EIO, 'injected')
        buf[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        self.disk.sim.steps += 1
        return n


class Disk:
    """builtins.open for the files of the run; other paths go to the real one."""

    def __init__(self, sim, root, files):
        self.sim, self.root, self.files = sim, root, files
        self.handles = []
        self.chunk, self.plan = 8192, None
        self.real = builtins.open

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        key = os.fspath(file) if isinstance(file, (str, os.PathLike)) else None
        if key not in self.files:
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        p = self.plan
        if p is not None and p['kind'] == 'open' and not p['done']:
            p['done'] = p['hit'] = True
            self.sim.fired('disk_open')
            raise SimIOError(errno.EMFILE, 'injected')
        raw = Raw(self, self.files[key], self.chunk, p)
        self.handles.append(raw)
        if buffering == 0:
            return raw
        h = io.BufferedReader(raw)
        if 'b' not in mode:
            h = io.TextIOWrapper(h, encoding=encoding or 'utf-8', errors=errors, newline=newline)
        self.handles.append(h)      # kept alive: only an explicit close counts
        return h

    def __enter__(self):
        self.io = io.open
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self.real, self.io
        for h in self.handles:
            try:
                h.close()
            except Exception:
                pass
        return False


def run(spec, sim):
    root = tempfile.mkdtemp(prefix='ctlsim-c18-')
    try:
        made = [contents(f) for f in spec['files']]
        files = {}
        for i, (b, _, _) in enumerate(made):
            p = os.path.join(root, 'f%d.txt' % i)
            with open(p, 'wb') as h:
                h.write(b)
            files[p] = b
        with Disk(sim, root, files) as disk:
            for oi, op in enumerate(spec['ops']):
                j = op['f'] % len(made)
                b, want, must = made[j]
                path = os.path.join(root, 'f%d.txt' % j)
                if op.get('swap') is not None:
                    # the file is rewritten between loads
                    k = op['swap'] % len(made)
                    other = os.path.join(root, 'f%d.txt' % k)
                    made[j], made[k] = made[k], made[j]
                    files[path], files[other] = files[other], files[path]
                    spec['files'][j], spec['files'][k] = spec['files'][k], spec['files'][j]
                    for q in (path, other):
                        with disk.real(q, 'wb') as h:
                            h.write(files[q])
                    b, want, must = made[j]
                f = spec['files'][j]
                d = op.get('disk')
                for rep in range(2 if d is not None or op.get('fault') else 1):
                    disk.chunk = op['chunk']
                    plan = None
                    if d is not None and rep == 0:
                        plan = dict(kind=d['kind'], at=int(d['frac'] * (len(b) + 1)), once=op['s'] % 2 == 0, done=False, hit=False)
                    disk.plan = plan
                    disk.handles = []
                    fault = op.get('fault') if rep == 0 and d is None else None
                    what = 'load %d (%s file of %d bytes, chunks of %d%s)' % (oi, f['bad'] or 'good', len(b), op['chunk'], ', again without faults' if rep else '')
                    o = sim.call(lambda: ctl.funcs.loadData(path), fault)
                    hit = (plan is not None and plan['hit']) or o.fired
                    how = what + (', %s at byte %d' % (plan['kind'], plan['at']) if plan is not None and plan['hit'] else '')
                    sim.note(how.replace(root, ''), o.kind, type(o.exc).__name__ if o.exc else '')
                    sim.state(f['bad'], plan['kind'] if plan else None, sim.where if o.fired else None, o.kind)
                    if hit or must:
                        sim.nontrivial = True
                    left = [h for h in disk.handles if not h.closed]
                    if left:
                        raise Violation('left-open', '%s: the file is still open after the call %s' % (how, 'returned' if o.ok else 'raised'))
                    if o.ok:
                        if must == 'raise':
                            raise Violation('malformed-accepted', '%s: malformed contents gave an array of shape %s' % (how, np.shape(to_np(o.value))))
                        a = to_np(o.value)
                        if a.dtype.kind != 'f' or a.shape != want.shape or not np.array_equal(a, want, equal_nan=True) or not np.array_equal(np.signbit(a) & ~np.isnan(a), np.signbit(want) & ~np.isnan(want)):
                            raise Violation('wrong-data', '%s: array of %s %s, file has %s' % (how, a.dtype, a.shape, want.shape))
                        sim.count('loaded')
                        if a.size and isinstance(o.value, np.ndarray) and o.value.flags.writeable:
                            o.value[...] = 7.25         # the caller may do what it likes with its array
                    elif not hit and must is None or (hit and must is None and plan is not None and plan['kind'] == 'eintr'):
                        raise Violation('exception', '%s raised %s' % (how, type(o.exc).__name__))
                    else:
                        sim.count('raised')
    finally:
        shutil.rmtree(root, ignore_errors=True)
