"""C16: snapshots and originals under interleaved in-place modification by two sides."""
import random

import numpy as np

from .. import ctl, ftnlib, ref
from ..core import Violation, to_np
from . import c05

RUNS = {'quick': 12000, 'thorough': 250000}
BATCH = 25
RULE = ('A pool of linked networks, arrays and drivers; 8-24 steps interleaving snapshots (copies, linked copies, matrices, vectors, arrays given to '
        'constructors, results of contractions, decompositions and networks, archives) with in-place modifications of any of them, some stopped at a backend call. '
        'After every step everything but its target must be bit-identical. Non-trivial: a snapshot taken and a modification made after it.')
STATES = 'hash of (operation, outcome, backend call that failed, kinds in the pool)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy'

TAKE = ['copy', 'copy', 'copyN', 'like', 'list', 'list', 'listLike', 'listOut', 'matrix', 'matrix', 'vector', 'ctor', 'ctor', 'ctorShape', 'ctorDiag', 'ctorDiag2',
        'contract', 'contract', 'seq', 'ftn', 'svd', 'schimdt', 'mps', 'hotrg', 'trg', 'ctmrg', 'ising', 'factory', 'norm', 'exp', 'given', 'given']
MOD = ['write', 'write', 'write', 'plan', 'plan', 'plan', 'name', 'dof', 'array', 'array', 'step', 'lists', 'lists']


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.randint(8, 40 if tier == 'thorough' else 24)):
        op = dict(op=rng.choice(TAKE if rng.random() < 0.5 else MOD), s=rng.randrange(1 << 30))
        if rng.random() < 0.3:
            op['fault'] = dict(kind=rng.choice(['oom', 'device', 'kbd', 'linalg']), frac=rng.random())
        ops.append(op)
    desc = ftnlib.gen_desc(rng, nmax=3)
    return dict(net=ref.gen_net(rng, 1, 4, connected=0.7, extra=0.7, openp=0.6, limit=1500), desc=desc, inp=ftnlib.gen_input(rng, desc, maxdim=2), ops=ops)


class Arr:
    """A bare array (or tuple of arrays) of the pool."""

    def __init__(self, a, what):
        self.a, self.what = a, what


class Grp:
    """Tensors closed under links."""

    def __init__(self, ts, what):
        self.ts, self.what = list(ts), what


class Given:
    """Lists and dictionaries an object was made from, and how to ask that object for its value."""

    def __init__(self, lists, ask, what):
        self.lists, self.ask, self.what = lists, ask, what


class Drv:
    """A driver: its archive is the snapshot."""

    def __init__(self, o, what):
        self.o, self.what = o, what

    def live(self):
        o = self.o
        r = [getattr(o, n, None) for n in ('a', 'b')] + list(getattr(o, 'tensors', {}).values())
        return [t for t in r if isinstance(t, ctl.Tensor)]

    def archive(self):
        o = self.o
        return list(getattr(o, 'aArchive', [])) + [x for l in getattr(o, 'records', {}).values() for x, _ in l]


def raw(a):
    """Writable view on the memory of an array of the pool, or None."""
    b = np.asarray(a).view(np.ndarray)
    return b if b.flags.writeable and b.size else None


class World:
    def __init__(self, spec):
        self.items = []
        self.made = {}
        self.ftn = ftnlib.build_ftn(spec['desc'])
        self.inp = None
        self.watch = []

    def watching(self, ts, ask):
        """Ask the same thing again later: ask() -> (got, value numpy gives now), or None when the tensors can no longer be asked."""
        self.watch.append((list(ts), ask))
        while len(self.watch) > 6:
            self.watch.pop(0)

    def again(self, rng, sim, what):
        """Snapshots taken again after a modification show the state of now, not the one of an earlier snapshot."""
        for ts, ask in rng.sample(self.watch, min(2, len(self.watch))):
            self.once(ask, sim, what)

    def once(self, ask, sim, what):
        p = ask()
        if p is not None:
            fn, want, name, kind = p
            snaps = self.snap()
            o = sim.call(fn)
            how = '%s, then %s again' % (what, name)
            sim.expect_ok(o, how)
            self.check(snaps, how)
            sim.count('asked_again')
            if kind == 'tensor':
                ref.same_value(ref.t_value(o.value), want, how, 'stale')
            elif not ref.close(to_np(o.value), want):
                raise Violation('stale', '%s: not the value of the tensors as they are now' % how)

    def snap(self, but=()):
        """One entry per object of the pool except the given tensors, arrays, groups and live parts of drivers."""
        skip = set(id(x) for x in but)
        out = []
        for it in self.items:
            if isinstance(it, Arr):
                if id(it) not in skip:
                    out.append((it.what, it, np.array(to_np(it.a))))
            elif isinstance(it, Grp):
                if id(it) not in skip:
                    out += [(it.what, t, ref.Snap([t])) for t in it.ts if id(t) not in skip]
            elif isinstance(it, Drv):
                out += [(it.what, t, ref.Snap([t])) for t in it.archive()]
                if id(it) not in skip:
                    out += [('tensors of the ' + it.what, t, ref.Snap([t])) for t in it.live() if id(t) not in skip]
        return out

    @staticmethod
    def check(snaps, what):
        for name, it, s in snaps:
            if isinstance(it, Arr):
                b = to_np(it.a)
                if b.shape != s.shape or not np.array_equal(b, s):
                    raise Violation('not-isolated', '%s changed the %s' % (what, name))
            else:
                s.check('%s, seen in the %s' % (what, name), 'not-isolated')

    def inp_ok(self, d, inp):
        """Still tensors the network can take (nothing renamed, reordered or linked them since)."""
        return all([g.name for g in self.inp[m].legs] == [x['orig'] for x in d['legs'][m]] and all(g.bond is None for g in self.inp[m].legs)
                   and [g.dim for g in self.inp[m].legs] == list(inp[m]['dims']) for m in d['names'])

    def add(self, *its):
        for it in its:
            self.items.append(it)
        while len(self.items) > 16:
            self.items.pop(0)


def same_tensor(c, t, what, data=True):
    if c is t:
        raise Violation('snapshot', '%s: the same object' % what)
    if [g.name for g in c.legs] != [g.name for g in t.legs] or [g.dim for g in c.legs] != [g.dim for g in t.legs]:
        raise Violation('snapshot', '%s: legs %s, expected %s' % (what, [(g.name, g.dim) for g in c.legs], [(g.name, g.dim) for g in t.legs]))
    if any(x is y for x in c.legs for y in t.legs):
        raise Violation('snapshot', '%s: shares a leg' % what)
    if c.diagonalFlag != t.diagonalFlag or c.name != t.name or c.degreeOfFreedom != t.degreeOfFreedom:
        raise Violation('snapshot', '%s: attributes differ' % what)
    if not data:
        if not c.tensorLikeFlag or c.a is not None:
            raise Violation('snapshot', '%s: data in a shape-only copy' % what)
    elif c.tensorLikeFlag != t.tensorLikeFlag:
        raise Violation('snapshot', '%s: data of one of the two missing' % what)
    elif not t.tensorLikeFlag and not (to_np(c.a).shape == to_np(t.a).shape and to_np(c.a).dtype == to_np(t.a).dtype and np.array_equal(to_np(c.a), to_np(t.a))):
        raise Violation('snapshot', '%s: data differ' % what)


def groups(w):
    return [it for it in w.items if isinstance(it, Grp) and it.ts]


def pick(rng, l):
    return rng.choice(l) if l else None


def pick_tensor(rng, w, linked=None, like=False):
    c = [(g, t) for g in groups(w) for t in g.ts if like or not t.tensorLikeFlag]
    return rng.choice(c) if c else None


def regroup(g):
    """Split a group into its connected parts."""
    left = list(g.ts)
    out = []
    while left:
        part = [left.pop(0)]
        k = 0
        while k < len(part):
            for x in part[k].legs:
                o = ref.other(x)
                if o is not None:
                    for t in left:
                        if t is o.tensor:
                            part.append(t)
                            left = [u for u in left if u is not t]
                            break
            k += 1
        out.append(Grp(part, g.what))
    return out


def real(g):
    return all(not t.tensorLikeFlag for t in g.ts)


def square(rng, s):
    """A positive tensor for the drivers, as a tensor of the pool would give it."""
    a = ref.rnd(s, (2, 2, 2, 2), positive=True)
    return ctl.Tensor(data=ref.host(a), labels=['u', 'l', 'd', 'r'], degreeOfFreedom=1)


def take(op, w, spec, sim):
    """(fn() -> value, post(value)) taking a snapshot; fn must not change anything already in the pool except what it says."""
    rng = random.Random('c16/%s' % op['s'])
    k = op['op']
    if k in ('copy', 'copyN', 'like', 'matrix', 'vector', 'svd', 'norm'):
        p = pick_tensor(rng, w, like=k in ('copy', 'like'))
        if p is None:
            return None
        g, t = p
        if k == 'copy':
            def post(c):
                same_tensor(c, t, 'copy')
                w.add(Grp([c], 'copy'))
            return (lambda: t.copy()), post
        if k == 'copyN':
            n = rng.randint(1, 3)

            def post(cs):
                if len(cs) != n:
                    raise Violation('snapshot', 'copyN(%d) gave %d tensors' % (n, len(cs)))
                for c in cs:
                    same_tensor(c, t, 'copyN')
                w.add(*[Grp([c], 'copy of copyN') for c in cs])
            return (lambda: t.copyN(n)), post
        if k == 'like':
            def post(c):
                same_tensor(c, t, 'toTensorLike', data=False)
                w.add(Grp([c], 'shape-only copy'))
            return (lambda: t.toTensorLike()), post
        if k == 'vector' and t.diagonalFlag and rng.random() < 0.5:
            want = ref.dense(t)

            def post(v):
                if not ref.close(to_np(v), want):
                    raise Violation('snapshot', 'toTensor of a diagonal tensor: wrong values')
                w.add(Arr(v, 'array made from a diagonal tensor'))
            return (lambda: t.toTensor()), post
        if k == 'vector':
            want = np.ravel(to_np(t.a)) if not t.diagonalFlag else None

            def post(v):
                if want is not None and not np.array_equal(to_np(v), want):
                    raise Violation('snapshot', 'toVector: wrong values')
                w.add(Arr(v, 'vector made from a tensor'))
                if want is not None:
                    w.watching([t], lambda: (t.toVector, np.ravel(to_np(t.a)), 'toVector', 'array'))
            return (lambda: t.toVector()), post
        if k == 'norm':
            def post(v):
                if not ref.close(to_np(v), np.linalg.norm(ref.dense(t))):
                    raise Violation('snapshot', 'norm: wrong value')
                if isinstance(v, np.ndarray):
                    w.add(Arr(v, 'norm of a tensor'))
                w.watching([t], lambda: (t.norm, np.linalg.norm(ref.dense(t)), 'norm', 'array'))
            return (lambda: t.norm()), post
        mine = [x.name for x in t.legs]
        if len(set(mine)) != len(mine) or len(mine) < (2 if k == 'svd' else 1):
            return None
        p = list(mine)
        rng.shuffle(p)
        cut = rng.randint(1, len(p) - 1) if k == 'svd' or (t.diagonalFlag and len(p) > 1) else rng.randint(0, len(p))
        rows, cols = p[:cut], p[cut:]
        if k == 'svd':
            if t.diagonalFlag:
                return None

            def call():
                return ctl.tensorFunc.tensorSVDDecomposition(t, rows=rows, cols=cols, innerLabels=('ia', 'ib'), chi=8)

            def product():
                d = call()
                return (to_np(d['u'].a) * to_np(d['s'].a)) @ to_np(d['v'].a)

            def post(d):
                w.add(*[Grp([d[x]], 'factor of a decomposition') for x in ('u', 's', 'v') if d[x] is not None])

                def ask():
                    names = [x.name for x in t.legs]
                    if sorted(names) != sorted(mine) or t.tensorLikeFlag:
                        return None
                    r = int(np.prod([t.legs[names.index(x)].dim for x in rows]))
                    m = np.transpose(ref.dense(t), [names.index(x) for x in rows + cols]).reshape(r, -1)
                    return (product, m, 'tensorSVDDecomposition', 'array') if min(m.shape) <= 8 else None
                w.watching([t], ask)
            return call, post
        if t.diagonalFlag and (not rows or not cols):
            return None
        want = np.transpose(ref.dense(t), [mine.index(x) for x in p]).reshape(int(np.prod([t.legs[mine.index(x)].dim for x in rows])), -1)
        r, c = (rows, cols)
        if rows and cols and not t.diagonalFlag:
            how = rng.randrange(4)
            if how == 1:
                c = None
                want = None
            elif how == 2:
                r = None
                want = None
            elif how == 3:
                r, c = [t.getLeg(x) for x in rows], [t.getLeg(x) for x in cols]
        elif not rows or not cols:
            return None
        keep = (None if r is None else list(r), None if c is None else list(c))

        def post(m):
            if want is not None and not ref.close(to_np(m), want):
                raise Violation('snapshot', 'toMatrix(%s, %s): wrong values' % (rows, cols))
            if (r is not None and r != keep[0]) or (c is not None and c != keep[1]):
                raise Violation('not-isolated', 'toMatrix changed the lists of labels it was given')
            w.add(Arr(m, 'matrix made from a tensor'))

            def ask():
                names = [x.name for x in t.legs]
                if sorted(names) != sorted(mine) or t.tensorLikeFlag or (r is not None and not isinstance(r[0], str)):
                    return None
                n = int(np.prod([t.legs[names.index(x)].dim for x in rows]))
                return (lambda: t.toMatrix(list(rows), list(cols)), np.transpose(ref.dense(t), [names.index(x) for x in rows + cols]).reshape(n, -1), 'toMatrix', 'array')
            w.watching([t], ask)
        return (lambda: t.toMatrix(r, c)), post
    if k in ('list', 'listLike', 'listOut'):
        g = pick(rng, groups(w))
        if g is None:
            return None
        part = rng.sample(g.ts, rng.randint(1, len(g.ts)))
        like = k == 'listLike'
        out = k == 'listOut'
        val = None if like or not all(not t.tensorLikeFlag for t in part) else (ref.einsum_value(part)[1], [x.name for x in ref.einsum_value(part)[0]])
        ends = [(a, b, x, ref.other(x)) for a, t in enumerate(part) for b, x in enumerate(t.legs) if x.bond is not None and not any(ref.other(x).tensor is u for u in part)]

        def post(cs):
            if len(cs) != len(part):
                raise Violation('snapshot', 'copyTensorList: %d copies of %d tensors' % (len(cs), len(part)))
            for c, t in zip(cs, part):
                same_tensor(c, t, 'copyTensorList', data=not (like or t.tensorLikeFlag))
            ref.check_struct(cs, 'copyTensorList')
            for a, b, x, y in ends:
                n = ref.other(cs[a].legs[b])
                if out and (n is not y or ref.other(x) is not None):
                    raise Violation('snapshot', 'copyTensorList(linkOutgoingBonds): outgoing leg %s of the copy is not linked in place of the original' % x.name)
                if not out and (n is not None or ref.other(x) is not y):
                    raise Violation('snapshot', 'copyTensorList: outgoing leg %s of the copy is linked' % x.name)
            if val is not None and not out:
                l, arr = ref.einsum_value(cs)
                if [x.name for x in l] != val[1] or not ref.close(arr, val[0]):
                    raise Violation('snapshot', 'copyTensorList: the copy has another value')
            if out:
                rest = [t for t in g.ts if not any(t is u for u in part)]
                w.items = [it for it in w.items if it is not g]
                w.add(*regroup(Grp(rest + cs, 'group relinked to a copy')))
                w.add(*regroup(Grp(part, 'original cut off by a copy')))
            else:
                w.add(*regroup(Grp(cs, 'linked copy')))
        if out:
            if any(t.tensorLikeFlag for t in g.ts):
                return None
            ids = [next(j for j, u in enumerate(g.ts) if u is t) for t in part]
            return ((lambda: ctl.optimalContract.copyTensorList(list(part), linkOutgoingBonds=True)), post, [g], g.ts,
                    (lambda ts: ctl.optimalContract.copyTensorList([ts[j] for j in ids], linkOutgoingBonds=True)))
        arg = list(part)

        def fn():
            r = ctl.optimalContract.copyTensorList(arg, tensorLikeFlag=like)
            if len(arg) != len(part) or any(x is not y for x, y in zip(arg, part)):
                raise Violation('not-isolated', 'copyTensorList changed the list it was given')
            return r
        return fn, post
    if k.startswith('ctor'):
        if k == 'ctorDiag':
            d = rng.randint(1, 3)
            n = rng.randint(1, 3)
            a = ref.host(ref.rnd(op['s'], (d,)))
            return (lambda: ctl.DiagonalTensor(data=a, labels=['d%d' % x for x in range(n)], shape=(d,) * n)), (lambda t: w.add(Arr(a, 'array given to a constructor'), Grp([t], 'tensor built from an array')))
        if k == 'ctorDiag2':
            d = rng.randint(1, 3)
            n = rng.randint(2, 3)
            v = np.zeros((d,) * n)
            v[(np.arange(d),) * n] = ref.rnd(op['s'], (d,))
            a = ref.host(v)
            return (lambda: ctl.DiagonalTensor(data=a, labels=['d%d' % x for x in range(n)], shape=(d,) * n)), (lambda t: w.add(Arr(a, 'array given to a constructor'), Grp([t], 'tensor built from an array')))
        # an array of the pool, or a fresh one
        c = [it for it in w.items if isinstance(it, Arr) and to_np(it.a).ndim <= 6]
        it = rng.choice(c) if c and rng.random() < 0.5 else Arr(ref.host(ref.rnd(op['s'], tuple(rng.randint(1, 3) for _ in range(rng.randint(1, 3))), cplx=rng.random() < 0.2)), 'array given to a constructor')
        sh = to_np(it.a).shape
        if k == 'ctorShape':
            size = int(np.prod(sh))
            if size == 0:
                return None
            f = [x for x in (1, 2, 3, 4, 6) if size % x == 0]
            x = rng.choice(f)
            sh = (x, size // x)

            def fn():
                return ctl.Tensor(data=it.a, shape=sh, labels=['x', 'y'])
        else:
            # a tensor built from the stored array of another one (toTensor is documented to give that array)
            def fn():
                return ctl.Tensor(data=it.a, labels=['z%d' % x for x in range(len(sh))]) if rng.random() < 0.7 else ctl.Tensor(data=it.a, shape=sh)

        def post(t):
            if not any(x is it for x in w.items):
                w.add(it)
            if not np.array_equal(to_np(t.a), to_np(it.a).reshape(sh)):
                raise Violation('snapshot', 'constructor: data differ from the array')
            w.add(Grp([t], 'tensor built from an array'))
        return fn, post
    if k in ('contract', 'seq'):
        g = pick(rng, [x for x in groups(w) if real(x)])
        if g is None:
            return None
        sq = ref.rand_seq(rng, len(g.ts)) if rng.random() < 0.6 else None
        if k == 'seq' and sq is not None:
            fn = (lambda: ctl.optimalContract.contractWithSequence(list(g.ts), seq=[tuple(x) for x in sq]))
        elif rng.random() < 0.5 and len(g.ts) > 1:
            fn = (lambda: ctl.optimalContract.contractAndCostWithSequence(list(g.ts))[0])
        else:
            fn = (lambda: ctl.optimalContract.contractWithSequence(list(g.ts), seq=[tuple(x) for x in sq] if sq else None)) if len(g.ts) > 1 else (lambda: ctl.optimalContract.contractWithSequence(list(g.ts), seq=[]))

        def post(t):
            w.add(Grp([t], 'result of a contraction'))
            ts = list(g.ts)

            def ask():
                if not any(it is g for it in w.items) or not real(g) or len(g.ts) != len(ts) or any(x is not y for x, y in zip(g.ts, ts)):
                    return None
                legs, arr = ref.einsum_value(ts)
                names = [x.name for x in legs]
                if len(set(names)) != len(names) or arr.size > 20000:
                    return None
                return fn, ref.by_label(legs, arr), 'the contraction', 'tensor'
            w.watching(ts, ask)
        return fn, post
    if k == 'ftn':
        d = spec['desc']
        if w.inp is None or rng.random() < 0.6:
            inp = {m: dict(x, seed=x['seed'] ^ op['s']) for m, x in spec['inp'].items()}
            w.inp = ftnlib.tensors(d, inp)
        ts = w.inp
        if not w.inp_ok(d, spec['inp']):
            return None
        for m in ts:
            if not any(isinstance(it, Grp) and any(t is ts[m] for t in it.ts) for it in w.items):
                w.add(Grp([ts[m]], 'input of a network'))
        plain = rng.random() < 0.5

        def post(t):
            w.add(Grp([t], 'result of a network'))

            def ask():
                if w.inp is not ts or not w.inp_ok(d, spec['inp']):
                    return None
                new = {m: ts[m].copy() for m in ts}
                return (lambda: ftnlib.call(w.ftn, d, None, plain, ts=ts)), ref.t_value(ftnlib.call(ftnlib.build_ftn(d), d, None, plain, ts=new)), 'the network', 'tensor'
            w.watching(list(ts.values()), ask)
        return (lambda: ftnlib.call(w.ftn, d, None, plain, ts=ts)), post
    if k == 'schimdt':
        g = pick(rng, [x for x in groups(w) if real(x) and len(x.ts) > 1])
        if g is None:
            return None
        ps = [(a, b) for a, b in c05.pairs(g.ts) if a < b and not g.ts[a].diagonalFlag and not g.ts[b].diagonalFlag
              and all(len(g.ts[x].legs) > len(c05.shared(g.ts[x], g.ts[y])) for x, y in ((a, b), (b, a)))
              and all(len(set(n)) == len(n) and not any('-' in x for x in n) for n in ([h.name for h in g.ts[x].legs] for x in (a, b)))]
        if not ps:
            return None
        a, b = rng.choice(ps)

        def fn():
            c = ctl.optimalContract.copyTensorList(list(g.ts))
            return ctl.Schimdt.SchimdtDecomposition(c[a], c[b], chi=4)
        return fn, (lambda r: w.add(*[x for t in r if isinstance(t, ctl.Tensor) for x in [Grp([t], 'factor of a decomposition')] if all(g.bond is None for g in t.legs)]))
    if k == 'mps':
        n = rng.randint(2, 4)
        ts = []
        for j in range(n):
            labs = (['l'] if j else []) + ['o'] + (['r'] if j < n - 1 else [])
            ts.append(ctl.Tensor(data=ref.host(ref.rnd(op['s'] + j, (2,) * len(labs))), labels=labs))
        for j in range(n - 1):
            ctl.link.makeLink('r', 'l', ts[j], ts[j + 1])

        def fn():
            m = ctl.MPS.FreeBoundaryMPS(list(ts), chi=8, inplace=False)
            c = m.copyOfTensors()
            return m, c

        def post(v):
            m, c = v
            for x in c:
                if any(x is y for y in list(m._tensors if hasattr(m, '_tensors') else m.tensors)):
                    raise Violation('snapshot', 'copyOfTensors gave a tensor of the MPS')
            w.add(Grp(ts, 'tensors an MPS was copied from'), Grp(list(m._tensors if hasattr(m, '_tensors') else m.tensors), 'tensors of an MPS'), Grp(c, 'copies of the tensors of an MPS'))
        return fn, post
    if k in ('hotrg', 'trg', 'ctmrg'):
        v = ref.rnd(op['s'], (2, 2, 2, 2), positive=True)
        if k == 'ctmrg':
            v = v + np.transpose(v, (1, 0, 3, 2))
            v = v + np.transpose(v, (2, 1, 0, 3))
            v = v + np.transpose(v, (0, 3, 2, 1))
        a = ctl.Tensor(data=ref.host(v), labels=['u', 'l', 'd', 'r'], degreeOfFreedom=1)
        cls = dict(hotrg=lambda: ctl.HOTRG.HOTRG(a, chiH=3), trg=lambda: ctl.TRG.SquareTRG(a, chi=3), ctmrg=lambda: ctl.CTMRG.CTMRG(a, chi=3))[k]
        return cls, (lambda o: w.add(Grp([a], 'tensor given to %s' % k.upper()), Drv(o, 'archive of %s' % k.upper())))
    if k == 'given':
        return given(op['s'], rng, w)
    if k == 'exp':
        return exp(op['s'], rng, w)
    if k in ('ising', 'factory'):
        n = op['s'] % len(MAKERS)
        arr = None
        if k == 'factory':
            n = -1 - op['s'] % len(FACTORY)
            f, nd = FACTORY[op['s'] % len(FACTORY)]
            arr = Arr(ref.host(ref.rnd(op['s'], (2,) * nd)), 'array given to a factory')

            def make():
                return [f(arr.a)]
        else:
            make = MAKERS[n]

        def post(v):
            for p in v[0]:
                if any(p is q for q in v[1]):
                    raise Violation('snapshot', 'two calls gave the same tensor')
            vals = [[np.array(to_np(t.a)) for t in x] for x in v]
            old = w.made.setdefault(n, vals[0]) if arr is None else vals[0]
            for x in vals:
                if len(x) != len(old) or any(not np.array_equal(p, q) for p, q in zip(old, x)):
                    raise Violation('not-isolated', 'making a model tensor again gave other values after one was modified')
            if arr is not None:
                w.add(arr)
            for x in v:
                w.add(*regroup(Grp(x, 'model tensor')))
        return (lambda: (make(), make())), post
    raise AssertionError(k)


def exp(s, rng, w):
    """The square and triangle builders, networks and traces, on tensors that stay in the pool."""
    tri = rng.random() < 0.4
    kept = [t for it in groups(w) for t in it.ts if it.what == 'tensor given to a builder' and not t.tensorLikeFlag and all(x.bond is None for x in t.legs)
            and [x.name for x in t.legs] == (['1', '2', '3'] if tri else ['u', 'l', 'd', 'r'])]
    if len(kept) < 2 or rng.random() < 0.4:
        x, y = rng.randint(1, 3), rng.randint(1, 3)
        kept = [ref.mk(dict(labels=['1', '2', '3'] if tri else ['u', 'l', 'd', 'r'], dims=[x] * 3 if tri else [x, y, x, y], seed=s + j,
                            cplx=rng.random() < 0.2, name=rng.choice([None, 'A'])) ) for j in range(2)]
    a, b = kept[:2]
    if [x.dim for x in a.legs] != [x.dim for x in b.legs] or len(set(x.dim for x in a.legs[::2])) > 1:
        return None
    new = [t for t in (a, b) if not any(t is u for it in groups(w) for u in it.ts)]
    E = ctl.contractExp
    which = rng.randrange(4)
    n = a.legs[0].dim

    def want():
        x, y = to_np(a.a), to_np(b.a)
        if tri and which < 2:
            return ref.by_label(['1', '2', '3'], np.einsum('apq,bsp,cqs->abc', x, x, x))
        if tri and which == 2:
            return (), np.sum(x * y)
        if not tri and which < 2:
            v = np.einsum('pqef,gfhi,hjkm,enoj->pgqnokim', x, y if which else x, x, y if which else x, optimize='greedy')
            m = a.legs[1].dim
            return ref.by_label(['u', 'l', 'd', 'r'], v.reshape(n * n, m * m, n * n, m * m))
        if not tri and which == 2:
            return (), np.einsum('ulul->', x)
        return (), np.sum(x * x)

    def call():
        if tri and which < 2:
            return E.triangleContractFTN().contract(E.makeTriangleTensorDict(a))
        if tri and which == 2:
            return E.triangleTensorTrace(a, b)
        if not tri and which < 2:
            return E.squareContractFTN().contract(E.makeSquareTensorDict(a, b) if which else E.makeSquareTensorDict(a))
        if not tri and which == 2:
            return E.squareTrace(a)
        return E.selfTrace(a)
    snap = ref.Snap([a, b])

    def fn():
        v = call()
        return v if isinstance(v, ctl.Tensor) else ctl.Tensor(data=ref.host(np.asarray(to_np(v))), shape=(), labels=[])

    def post(t):
        what = ['the builder', 'the builder of two', 'the trace of two', 'the trace'][which]
        snap.check(what, 'not-isolated')
        ref.same_value(ref.t_value(t), want(), what, 'snapshot')
        w.add(*[Grp([x], 'tensor given to a builder') for x in new])
        w.add(Grp([t], 'result of a network'))

        def ask():
            if any(x.tensorLikeFlag or [(g.name, g.dim) for g in x.legs] != l or any(g.bond is not None for g in x.legs) for x, l in ((a, la), (b, lb))):
                return None
            return fn, want(), what, 'tensor'
        la, lb = ([(g.name, g.dim) for g in x.legs] for x in (a, b))
        w.watching([a, b], ask)
    return fn, post


def given(s, rng, w):
    """Objects made from lists and dictionaries of the caller, which the caller may then use for something else."""
    which = rng.randrange(4)
    if which < 3:
        n = rng.randint(1, 3)
        d = rng.randint(1, 3)
        dims = [d] * n if which else [rng.randint(1, 3) for _ in range(n)]
        legs = [ctl.Leg(None, x, 'g%d' % j) for j, x in enumerate(dims)]
        labels = ['g%d' % j for j in range(n)]
        shape = list(dims)
        lists = [labels, shape] + ([legs] if rng.random() < 0.8 else [])
        kw = dict(labels=labels, shape=shape, **(dict(legs=legs) if len(lists) > 2 else {}))
        kw = {x: kw[x] for x in kw if x == 'shape' or x == 'labels' or rng.random() < 0.9}
        if 'legs' in kw and rng.random() < 0.5:
            del kw['shape']
        v = ref.rnd(s, (d,) if which else tuple(dims))
        like = which == 2

        def fn():
            if like:
                return ctl.Tensor(tensorLikeFlag=True, **kw)
            return (ctl.DiagonalTensor if which else ctl.Tensor)(data=ref.host(v), **kw)

        def post(t):
            if [(x.name, x.dim) for x in t.legs] != list(zip(labels, dims)) or len(kw.get('labels', labels)) != n:
                raise Violation('snapshot', 'a constructor: legs differ from those given')
            w.add(Grp([t], 'tensor built from lists'), Given(lists, None, 'lists given to a constructor'))
        return fn, post
    d = ftnlib.gen_desc(rng, nmax=3)
    inp = ftnlib.gen_input(rng, d, maxdim=2)
    names = list(d['names'])
    outs = [[[p if isinstance(p, str) else tuple(p) for p in pick], new] for pick, new in d['outp']]
    plain = rng.random() < 0.4
    ts = ftnlib.tensors(d, inp)
    arg = {m: ts[m] for m in ts}

    def fn():
        f = ctl.FTN(tensorNames=names, realCost=d['realCost'], typicalDim=d['typicalDim'])
        for m, a, b in d['pre']:
            f.addPreNameChange(m, a, b)
        for a, x, b, y in d['links']:
            f.addLink(a, x, b, y)
        for pick, new in outs:
            f.addPostOutProduct(pick, new)
        for t, a, b in d['post']:
            f.addPostNameChange(t, a, b)
        return f, (None if plain else ctl.TensorDict(arg))

    def post(v):
        f, td = v
        want = ftnlib.expect(d, inp)

        def ask():
            return (lambda: f.contract(dict(ts) if td is None else td, removeTensorTag=d['removeTag'])), want, 'the network', 'tensor'
        w.add(Given([names, arg] + [x[0] for x in outs], ask, 'lists given to a network'))
    return fn, post


def ising_graph(n, edges):
    g = ctl.graph.UndirectedGraph(n)
    for a, b in edges:
        g.addEdge(a, b, weight=0.3 + 0.1 * a)
    return g


def L(t):
    return [t]


MAKERS = [lambda: L(ctl.Ising.squareIsingTensor(0.4)), lambda: L(ctl.Ising.squareIsingTensor(0.4, obs='M')), lambda: L(ctl.Ising.plaquetteIsingTensor(0.4)),
          lambda: L(ctl.Ising.plaquetteIsingTensor((0.4, 0.3), diamondForm=True)), lambda: L(ctl.Ising.IsingSiteTensor(0.4, dim=3)),
          lambda: L(ctl.Ising.IsingSiteTensor([0.4, 0.2], dim=2, labels=['x', 'y'])),
          lambda: list(ctl.Ising.IsingTNFromUndirectedGraph(ising_graph(3, [(0, 1), (1, 2), (2, 0)]))),
          lambda: list(ctl.Ising.IsingTNFromUndirectedGraph(ising_graph(4, [(0, 1), (1, 2), (2, 3)])))]
FACTORY = [(lambda a: ctl.tensorFactory.makeSquareTensor(a), 4), (lambda a: ctl.tensorFactory.makeTriangleTensor(a), 3), (lambda a: ctl.tensorFactory.makeSquareOutTensor(a, 'ul'), 3),
           (lambda a: ctl.tensorFactory.makeSquareOutTensor(a, 'dr'), 3)]


def mod(op, w):
    """(excepted objects, world, fn(world), after, faulty) of an in-place modification, or None."""
    rng = random.Random('c16m/%s' % op['s'])
    k = op['op']
    if k == 'lists':
        it = pick(rng, [x for x in w.items if isinstance(x, Given)])
        if it is None:
            return None
        return [it], it, (lambda x: spoil(rng.choice(x.lists), rng)), it
    if k == 'array':
        it = pick(rng, [x for x in w.items if isinstance(x, Arr) and raw(x.a) is not None])
        if it is None:
            return None
        return [it], it, (lambda x: scribble(raw(x.a), rng)), None
    if k == 'step':
        it = pick(rng, [x for x in w.items if isinstance(x, Drv)])
        if it is None or len(it.archive()) > 9:
            return None
        return [it], it.o, (lambda o: o.iterate() is None), None
    if k == 'write':
        c = [(g, t) for g in groups(w) for t in g.ts if not t.tensorLikeFlag] + [(d, t) for d in w.items if isinstance(d, Drv) for t in d.live()]
        if not c:
            return None
        g, t = rng.choice(c)
        if w.watch and rng.random() < 0.5:
            seen = [t for ts, _ in w.watch for t in ts if not t.tensorLikeFlag]
            g, t = (None, rng.choice(seen)) if seen else (g, t)
        r = raw(t.a)
        if r is None:
            return None
        return [t], t, (lambda x: scribble(raw(x.a), rng)), None
    if k in ('name', 'dof'):
        p = pick_tensor(rng, w, like=True)
        if p is None:
            return None
        g, t = p
        return [t], t, (lambda x: setattr(x, *(('name', 'N%d' % (op['s'] % 100)) if k == 'name' else ('degreeOfFreedom', op['s'] % 50 + 1)))), None
    g = pick(rng, [x for x in groups(w) if real(x)])
    if g is None or sum(len(t.legs) for t in g.ts) > 24:
        return None
    try:
        ref.check_struct(g.ts, 'pool')
    except Violation:            # broken by its own operation: C05's business
        w.items = [x for x in w.items if x is not g]
        return None
    legs, arr = ref.einsum_value(g.ts)
    model = ([x.name for x in legs], arr)
    if len(set(model[0])) != len(model[0]) or arr.size > 20000:
        return None
    for _ in range(6):
        sub = dict(op=rng.choice(c05.GOOD if rng.random() < 0.75 else c05.BAD), s=rng.randrange(1 << 30))
        bad = sub['op'] not in c05.GOOD or rng.random() < 0.2 and sub['op'] in c05.BAD
        if bad:
            fn = c05.plan_bad(sub, g.ts)
            p = fn
        else:
            p = c05.plan(sub, g.ts, model, op['s'] % 100000)
            fn = p and p[0]
        if p is not None:
            op['sub'] = sub['op']

            def after():
                ts = g.ts
                w.items = [x for x in w.items if x is not g]
                w.add(*regroup(Grp(ts, g.what)))
            return [g], g.ts, fn, after, bad
    return None


def spoil(l, rng):
    """The caller uses its list or dictionary for something else."""
    if isinstance(l, dict):
        l.clear() if rng.random() < 0.5 else l.update(zz=None)
    elif rng.random() < 0.4:
        x = rng.choice(l) if l else 1
        l.append(ctl.Leg(None, 1, 'zz') if isinstance(x, ctl.Leg) else x)
    elif l and rng.random() < 0.4:
        l.pop(rng.randrange(len(l)))
    elif rng.random() < 0.4:
        l.reverse()
    else:
        del l[:]


def scribble(r, rng):
    how = rng.randrange(3)
    v = rng.uniform(-1.0, 1.0)
    if how == 0:
        r[...] = v
    elif how == 1:
        r *= 1.0 + v if r.dtype.kind in 'fc' else 2
    else:
        idx = tuple(rng.randrange(n) for n in r.shape)
        r[idx] = v + 1.5


def run(spec, sim):
    w = World(spec)
    w.add(*regroup(Grp(ref.build(spec['net']), 'first network')))
    taken = False
    for oi, op in enumerate(spec['ops']):
        op = dict(op)
        f = op.get('fault')
        what = 'step %d (%s)' % (oi, op['op'])
        kinds = sorted(set(x.what for x in w.items))
        if op['op'] in TAKE:
            p = take(op, w, spec, sim)
            if p is None:
                continue
            fn, post = p[:2]
            snaps = w.snap(p[2] if len(p) > 2 else ())
            if f is not None and len(p) > 3:
                o = sim.step(p[3], p[4], f)
            else:
                o = sim.call(fn, f)
            sim.note(what, o.kind)
            how = '%s stopped by %s at %s' % (what, f['kind'], sim.where) if o.fired else what
            w.check(snaps, how)
            sim.state(op['op'], o.kind, sim.where if o.fired else None, kinds)
            sim.expect_ok(o, how)
            if o.ok:
                post(o.value)
                w.check(snaps, what)
                taken = True
                sim.count('taken_' + op['op'])
            elif len(p) > 3:
                # stopped while links were being moved: C05's business; drop the group
                w.items = [x for x in w.items if x is not p[2][0]]
            continue
        p = mod(op, w)
        if p is None:
            continue
        but, world, fn, after = p[:4]
        bad = len(p) > 4 and p[4]
        what = 'step %d (%s)' % (oi, op.get('sub', op['op']))
        snaps = w.snap(but)
        if f is not None and op['op'] in ('plan', 'step'):
            o = sim.step(world, fn, f)
        else:
            o = sim.call(lambda: fn(world))
        sim.note(what, o.kind)
        how = '%s stopped by %s at %s' % (what, f['kind'], sim.where) if o.fired else what
        w.check(snaps, how)
        sim.state(op.get('sub', op['op']), o.kind, sim.where if o.fired else None, kinds)
        if taken:
            sim.nontrivial = True
        sim.count('modified_' + op['op'])
        if op['op'] == 'step' and o.kind != 'ok':
            w.items = [x for x in w.items if x is not but[0]]
            continue
        if not bad:
            sim.expect_ok(o, how)
        if isinstance(after, Given):
            if after.ask is not None:
                w.once(after.ask, sim, '%s of %s' % (what, after.what))
        elif after is not None:
            after()
        if o.ok:
            w.again(random.Random('c16a/%s' % op['s']), sim, what)
