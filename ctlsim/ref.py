"""Reference model: tensor networks as named legs + numpy.einsum, snapshots and structural checks."""
import numpy as np

from . import ctl
from .core import Violation, to_np, HarnessError

TOL = 1e-7
UNIT = 1.0      # magnitude below which a difference no longer counts; smaller for networks with small tensors (reset for every run)


def rnd(seed, shape, cplx=False, positive=False):
    rs = np.random.RandomState(seed % (2 ** 32))
    a = rs.uniform(0.2, 1.2, size=shape) if positive else rs.uniform(-1.0, 1.0, size=shape)
    if cplx:
        a = a + 1j * rs.uniform(-1.0, 1.0, size=shape)
    return np.asarray(a)


def values(ts, shape):
    """Elements of a tensor spec: random, times 'scale', or one of the special fills."""
    a = rnd(ts['seed'], shape, ts.get('cplx'))
    f = ts.get('fill')
    if f == 'zero':
        a = a * 0.0
    elif f == 'one':
        a = a * 0.0 + 1.0
    elif f == 'sparse':
        a = np.where(rnd(ts['seed'] + 1, shape) > 0.2, a, 0.0)
    elif f == 'ints':
        a = np.round(a * 3)
        return np.asarray(a if ts.get('cplx') else a.astype(np.int64))
    elif f == 'units':
        a = np.where(a.real > 0, 1.0, -1.0).astype(a.dtype)
    return np.asarray(a * ts['scale'] if 'scale' in ts else a)


def set_unit(specs):
    """Scale of the smallest product that tensors of these specs can form."""
    global UNIT
    for s in specs:
        UNIT *= min(1.0, s.get('scale', 1.0))


def dress(rng, specs, p=0.25):
    """Give some tensor specs unusual values: other magnitudes, zeros, equal elements."""
    if rng.random() < p:
        k = rng.choice(['same', 'one', 'mixed', 'fill', 'fill'])
        c = rng.choice(specs)
        for s in specs:
            if k == 'fill' and rng.random() < 0.5:
                s['fill'] = rng.choice(['zero', 'one', 'sparse', 'sparse', 'units', 'units', 'ints', 'ints'])
            if k == 'same':
                s['scale'] = 10.0 ** -(specs[0]['seed'] % 4) * 0.3
            if k == 'mixed' or (k == 'one' and s is c):
                s['scale'] = 10.0 ** rng.randint(-4, 4)
    return specs


def host(a):
    """Give a plain host array to the selected backend (explicit transfer)."""
    return ctl.xplib.xp.array(a)


def mk(ts, dims=None):
    """Tensor from its spec {'labels','dims','diag','cplx','seed','name','dof'}."""
    dims = tuple(dims if dims is not None else ts['dims'])
    if ts.get('diag'):
        a = values(ts, dims[:1])
        t = ctl.DiagonalTensor(data=host(a), labels=list(ts['labels']), shape=dims)
    else:
        a = values(ts, dims)
        t = ctl.Tensor(data=host(a), labels=list(ts['labels']), shape=dims)
    if ts.get('name') is not None:
        t.name = ts['name']
    if ts.get('dof') is not None:
        t.degreeOfFreedom = ts['dof']
    return t


def dense(t):
    """Dense ndarray of a live tensor, from its stored data."""
    a = to_np(t.a)
    if t.diagonalFlag:
        n = len(t.legs)
        if n == 0:
            return a.reshape(())
        if a.ndim == 0:
            return np.full((1,) * n, a)
        out = np.zeros((a.shape[0],) * n, dtype=a.dtype)
        idx = np.arange(a.shape[0])
        out[(idx,) * n] = a
        return out
    return a


def build(net):
    """net: {'tensors':[spec], 'links':[[ti,li,tj,lj]]} -> list of linked tensors."""
    ts = [mk(s) for s in net['tensors']]
    set_unit(net['tensors'])
    for i, li, j, lj in net['links']:
        ctl.link.makeLink(ts[i].legs[li], ts[j].legs[lj])
    return ts


def einsum_value(tensors):
    """(open legs, array) of the live network: bonds inside the list are summed."""
    ids = {}
    legs_of = []
    inside = set(id(t) for t in tensors)
    own = {}
    for t in tensors:
        for g in t.legs:
            own[id(g)] = g
    n = 0
    args = []
    openl = []
    for t in tensors:
        sub = []
        for g in t.legs:
            b = g.bond
            o = None
            if b is not None:
                o = b.legs[1] if b.legs[0] is g else b.legs[0]
            if o is not None and id(o) in own and o is not g:
                key = frozenset((id(g), id(o)))
                if key not in ids:
                    ids[key] = n
                    n += 1
                sub.append(ids[key])
            else:
                ids[id(g)] = n
                openl.append((g, n))
                sub.append(n)
                n += 1
        args += [dense(t), sub]
        legs_of.append(sub)
    if n > 50:
        raise HarnessError('network too large')
    out = np.einsum(*args, [k for _, k in openl], optimize='greedy') if tensors else np.array(1.0)
    return [g for g, _ in openl], np.asarray(out)


def by_label(legs, arr, dup=False):
    """Canonical form: labels sorted, axes moved accordingly."""
    names = [g if isinstance(g, str) else g.name for g in legs]
    order = sorted(range(len(names)), key=lambda k: names[k])
    if not dup and len(set(names)) != len(names):
        raise Violation('wrong-labels', 'open legs share a name: %s' % names)
    return tuple(names[k] for k in order), np.transpose(arr, order) if order else arr


def net_value(tensors):
    return by_label(*einsum_value(tensors))


def t_value(t):
    return by_label(list(t.legs), dense(t))


def close(a, b, tol=TOL):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(np.isfinite(a), np.isfinite(b)) and np.allclose(a[np.isfinite(a)], b[np.isfinite(b)]))
    return float(np.max(np.abs(a - b))) <= tol * max(UNIT, float(np.max(np.abs(b))))


def same_value(got, want, what, kind='wrong-value', tol=TOL):
    """got/want: (labels, array)."""
    if tuple(got[0]) != tuple(want[0]):
        raise Violation(kind, '%s: labels %s, expected %s' % (what, got[0], want[0]))
    if np.asarray(got[1]).shape != np.asarray(want[1]).shape:
        raise Violation(kind, '%s: shape %s, expected %s' % (what, np.asarray(got[1]).shape, np.asarray(want[1]).shape))
    if not close(got[1], want[1], tol):
        raise Violation(kind, '%s: value differs (max |difference| %.3g, scale %.3g)' % (
            what, float(np.max(np.abs(np.asarray(got[1]) - np.asarray(want[1])))), float(np.max(np.abs(want[1])))))


def other(g):
    try:
        b = g.bond
    except AttributeError:
        raise Violation('structure', 'a leg has no bond attribute at all') from None
    if b is None:
        return None
    return b.legs[1] if b.legs[0] is g else b.legs[0]


def check_single(t, a, what, kind):
    try:
        v = to_np(t.single())
    except Exception as e:
        raise Violation(kind, '%s has no legs left but gives no single value: %s' % (what, type(e).__name__)) from None
    if a.size != 1 or not np.array_equal(np.asarray(v), a.reshape(np.shape(v)), equal_nan=True):
        raise Violation(kind, '%s has no legs left and holds %s, its single value is %s' % (what, a, v))


def check_struct(tensors, what, kind='structure'):
    """Leg dimensions agree with the data; both ends of every link agree."""
    for k, t in enumerate(tensors):
        sh = t.shape
        if not t.tensorLikeFlag:
            a = to_np(t.a)
            if not t.legs:
                check_single(t, a, '%s: tensor %d' % (what, k), kind)
            if t.diagonalFlag:
                if a.ndim > 1 or (len(t.legs) > 0 and a.shape != (t.legs[0].dim,)):
                    raise Violation(kind, '%s: diagonal tensor %d holds data of shape %s for legs %s' % (what, k, a.shape, [g.dim for g in t.legs]))
            elif a.shape != tuple(g.dim for g in t.legs):
                raise Violation(kind, '%s: tensor %d holds data of shape %s but its legs are %s' % (what, k, a.shape, [(g.name, g.dim) for g in t.legs]))
        if tuple(sh) != tuple(g.dim for g in t.legs):
            raise Violation(kind, '%s: tensor %d has shape %s but legs of dimensions %s' % (what, k, tuple(sh), [g.dim for g in t.legs]))
        if len(set(id(g) for g in t.legs)) != len(t.legs):
            raise Violation(kind, '%s: tensor %d has the same leg twice' % (what, k))
        for g in t.legs:
            if g.tensor is not t:
                raise Violation(kind, '%s: leg %s of tensor %d does not point back to it' % (what, g.name, k))
            if g.bond is not None:
                if sum(1 for x in g.bond.legs if x is g) != 1:
                    raise Violation(kind, '%s: bond of leg %s of tensor %d does not contain it once' % (what, g.name, k))
                o = other(g)
                if o.bond is not g.bond:
                    raise Violation(kind, '%s: other end of leg %s of tensor %d is bonded elsewhere' % (what, g.name, k))
                if o.dim != g.dim:
                    raise Violation(kind, '%s: link with dimensions %s and %s' % (what, g.dim, o.dim))
                if o.tensor is not None and not any(x is o for x in o.tensor.legs):
                    raise Violation(kind, '%s: other end of leg %s of tensor %d is not on the tensor it points to' % (what, g.name, k))


class Snap:
    """Strict snapshot of tensors: data, labels, dimensions, leg identity, links, back references."""

    def __init__(self, tensors):
        self.ts = list(tensors)
        self.d = [self._one(t) for t in self.ts]

    @staticmethod
    def _one(t):
        legs = []
        for g in t.legs:
            legs.append((g, g.name, g.dim, other(g), g.tensor))
        return (legs, None if t.tensorLikeFlag else np.array(to_np(t.a)), t.name, t.degreeOfFreedom,
                tuple(t.shape), t.diagonalFlag, t.tensorLikeFlag)

    def check(self, what, kind='input-modified', order=True):
        for k, (t, old) in enumerate(zip(self.ts, self.d)):
            new = self._one(t)
            ol, nl = old[0], new[0]
            perm = None
            if order or [id(x[0]) for x in ol] == [id(x[0]) for x in nl]:
                if [x[1] for x in ol] != [x[1] for x in nl]:
                    raise Violation(kind, '%s: labels of tensor %d were %s, now %s' % (what, k, [x[1] for x in ol], [x[1] for x in nl]))
                if [id(x[0]) for x in ol] != [id(x[0]) for x in nl]:
                    raise Violation(kind, '%s: legs of tensor %d were replaced' % (what, k))
                pairs = list(zip(ol, nl))
            else:
                m = {id(x[0]): (p, x) for p, x in enumerate(nl)}
                if set(m) != set(id(x[0]) for x in ol) or len(ol) != len(nl):
                    raise Violation(kind, '%s: legs of tensor %d were replaced' % (what, k))
                perm = [m[id(x[0])][0] for x in ol]
                pairs = [(x, m[id(x[0])][1]) for x in ol]
            for x, y in pairs:
                if x[1] != y[1] or x[2] != y[2]:
                    raise Violation(kind, '%s: leg of tensor %d was (%s, %s), now (%s, %s)' % (what, k, x[1], x[2], y[1], y[2]))
                if x[3] is not y[3]:
                    raise Violation(kind, '%s: link of leg %s of tensor %d changed' % (what, x[1], k))
                if x[4] is not y[4]:
                    raise Violation(kind, '%s: leg %s of tensor %d now belongs to another tensor' % (what, x[1], k))
            if old[5:] != new[5:] or old[3] != new[3] or old[2] != new[2]:
                raise Violation(kind, '%s: attributes of tensor %d changed' % (what, k))
            if old[1] is not None:
                b = new[1]
                if new[1] is None:
                    raise Violation(kind, '%s: data of tensor %d lost' % (what, k))
                if perm is not None and not t.diagonalFlag:
                    b = np.transpose(b, perm)
                if old[1].shape != b.shape or not np.array_equal(old[1], b):
                    raise Violation(kind, '%s: data of tensor %d changed' % (what, k))


# -- random networks ---------------------------------------------------------
def styled(rng, letters, tail):
    """How to write label k (of tensor i): usually a letter, now and then names that are easily taken for each other."""
    style = rng.choice(['case', 'prefix', 'words', 'greek', 'digits']) if rng.random() < 0.12 else None
    if style == 'case':
        low = letters[:len(letters) // 2 + 1]
        letters = ''.join(x + x.upper() for x in low)

    def name(k, i):
        t = str(i) if tail else ''
        if style == 'prefix':
            return letters[0] + t + 'x' * k
        if style == 'words':
            return 'leg %s of %s' % (letters[k], t or 'it')
        if style == 'greek':
            return chr(0x3b1 + k + 'ap'.find(letters[0]) * 8) + t
        if style == 'digits':
            return str(k) + ('0' + t if t else '')
        return letters[k] + t
    return name


def gen_net(rng, nmin=2, nmax=5, maxdim=3, diag=0.3, cplx=0.2, connected=0.85, extra=0.5, openp=0.6, maxlegs=4,
            limit=200000, uniform_labels=0.4, multi=True, same_dim=0.3, all_diag=0.05):
    """Random network spec.  Open legs have unique labels; bonded legs may repeat labels across tensors.
    Now and then one is larger than usual in one respect: legs, dimensions, or tensors."""
    large = rng.choice(['legs', 'dims', 'count']) if rng.random() < 0.05 else None
    usual = (nmax, maxdim, maxlegs)
    for attempt in range(200):
        nmax, maxdim, maxlegs = usual
        if attempt < 60 and large == 'legs':
            nmax, maxdim, maxlegs = max(nmin, min(nmax, 3)), 2, 7
        elif attempt < 60 and large == 'dims':
            nmax, maxdim = max(nmin, min(nmax, 3)), 8
        elif attempt < 60 and large == 'count' and nmax > 2:
            nmax, maxdim = nmax + 3, 2
        n = rng.randint(nmin if large != 'count' or attempt >= 60 or nmax < 6 else nmax - 2, nmax)
        legs = [[] for _ in range(n)]      # (dim, linkid or None)
        sd = rng.randint(2, maxdim) if rng.random() < same_dim else None
        isdiag = [rng.random() < (0.9 if rng.random() < all_diag else diag) for _ in range(n)]
        ddim = [rng.randint(2, maxdim) for _ in range(n)]
        # diagonal tensors that are linked share one dimension: use one dimension for all diagonal tensors
        dd = sd or rng.randint(2, maxdim)
        links = []

        def dim_for(i, j):
            if isdiag[i] or (j is not None and isdiag[j]):
                return dd
            return sd or rng.randint(1 if rng.random() < 0.1 else 2, maxdim)

        def addlink(i, j):
            if len(legs[i]) >= maxlegs or len(legs[j]) >= maxlegs:
                return
            d = dim_for(i, j)
            legs[i].append([d, None])
            legs[j].append([d, None])
            links.append([i, len(legs[i]) - 1, j, len(legs[j]) - 1])
        conn = rng.random() < connected
        scalar = n - 1 if n > 1 and connected < 1.0 and rng.random() < 0.1 else None        # one tensor without legs
        for i in range(1, n):
            if i != scalar and (conn or rng.random() < 0.5):
                addlink(rng.choice([x for x in range(i) if x != scalar]), i)
        for _ in range(n):
            if n > 1 and rng.random() < extra:
                i, j = rng.sample(range(n), 2)
                if scalar in (i, j):
                    continue
                if not multi and any({a, c} == {i, j} for a, b, c, d in links):
                    continue
                addlink(i, j)
        for i in range(n):
            while len(legs[i]) < maxlegs and rng.random() < (openp if len(legs[i]) else 1.0):
                legs[i].append([dim_for(i, None), None])
                if rng.random() < 0.5:
                    break
            if i == scalar:
                legs[i] = []
        tot = 1
        for i in range(n):
            for k, (d, _) in enumerate(legs[i]):
                tot *= d
        for i, li, j, lj in links:
            tot //= legs[i][li][0]
        if tot > limit:
            continue
        # shuffle legs of each tensor
        perm = []
        for i in range(n):
            p = list(range(len(legs[i])))
            rng.shuffle(p)
            perm.append(p)
        inv = [{old: new for new, old in enumerate(p)} for p in perm]
        links = [[i, inv[i][a], j, inv[j][b]] for i, a, j, b in links]
        linked = set((i, a) for i, a, j, b in links) | set((j, b) for i, a, j, b in links)
        uni = rng.random() < uniform_labels
        short, full = styled(rng, 'abcdefgh', False), styled(rng, 'pqrstuvw', True)
        tensors = []
        cp = rng.random() < cplx
        for i in range(n):
            dims = [legs[i][p][0] for p in perm[i]]
            labels = []
            for k in range(len(dims)):
                if uni and (i, k) in linked:
                    labels.append(short(k, i))
                else:
                    labels.append(full(k, i))
            tensors.append(dict(labels=labels, dims=dims, diag=bool(isdiag[i]), cplx=bool(cp and rng.random() < 0.6),
                                seed=rng.randrange(1 << 30), name=rng.choice([None, None, 'T%d' % i])))
        return dict(tensors=dress(rng, tensors), links=links)
    raise HarnessError('gen_net')


def is_connected(net):
    n = len(net['tensors'])
    p = list(range(n))

    def f(x):
        while p[x] != x:
            x = p[x]
        return x
    for i, _, j, _ in net['links']:
        p[f(i)] = f(j)
    return len(set(f(i) for i in range(n))) <= 1


def rand_seq(rng, n):
    """A random valid contraction sequence: result goes to min(s, t)."""
    alive = list(range(n))
    seq = []
    while len(alive) > 1:
        s, t = rng.sample(alive, 2)
        seq.append([s, t])
        alive.remove(max(s, t))
    return seq
