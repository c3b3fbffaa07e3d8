"""C23: decompositions inside histories of truncations, recombinations and failures."""
import random

import numpy as np

from .. import ctl, ref
from ..core import Violation, to_np

RUNS = {'quick': 16000, 'thorough': 250000}
BATCH = 40
RULE = ('4-12 decompositions of matrices of given spectra, of tensors of a linked network, of environments, and truncations of the bonds of a chain (the results go back '
        'into the chain), many stopped at a backend call and repeated. Non-trivial: a call was stopped and repeated, or a bond of the chain truncated.')
STATES = 'hash of (operation, spectrum, kept number of values, backend call that failed)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy'

TOL = 1e-9


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.randint(4, 24 if tier == 'thorough' else 12)):
        op = dict(op=rng.choice(['svd', 'svd', 'tsvd', 'tsvd', 'env', 'env', 'iso', 'chain', 'chain', 'chain']), s=rng.randrange(1 << 30))
        if rng.random() < 0.4:
            op['fault'] = dict(kind=rng.choice(['oom', 'device', 'kbd', 'linalg', 'linalg']), frac=rng.random())
        ops.append(op)
    return dict(net=ref.gen_net(rng, 1, 3, connected=0.7, openp=0.7, limit=1500), chain=rng.choice([2, 3, 3, 4]), cs=rng.randrange(1 << 30), ops=ops)


def unitary(rs, n, cplx):
    a = rs.standard_normal((n, n)) + (1j * rs.standard_normal((n, n)) if cplx else 0)
    return np.linalg.qr(a)[0]


def spectrum(rng, n):
    """n values, decreasing, well separated from zero where they are not zero."""
    kind = rng.choice(['any', 'any', 'rank', 'degenerate', 'steep', 'zero'] if rng.random() < 0.5 else ['any', 'rank', 'degenerate', 'steep'])
    s = sorted((0.2 + rng.random() * 3 for _ in range(n)), reverse=True)
    if kind == 'degenerate':
        s = [s[0] if rng.random() < 0.5 else 1.0 for _ in range(n)]
        s.sort(reverse=True)
    elif kind == 'steep':
        s = [s[0] * 10.0 ** (-k) for k in range(n)]
    elif kind == 'zero':
        s = [0.0] * n
    elif kind == 'rank':
        r = rng.randint(1, n)
        s = s[:r] + [0.0] * (n - r)
    return kind, np.array(s)


def eye(a, tol=TOL):
    return a.shape[0] == a.shape[1] and (a.size == 0 or float(np.max(np.abs(a - np.eye(a.shape[0])))) <= tol)


def optimal(what, m, prod, s, k):
    """prod must be a best approximation of m by rank k; s: singular values of m."""
    if prod.shape != m.shape or not np.all(np.isfinite(prod)):
        raise Violation('wrong-factors', '%s: the product has shape %s (or is not finite), the matrix %s' % (what, prod.shape, m.shape))
    d, want = float(np.linalg.norm(m - prod)), float(np.sqrt(np.sum(s[k:] ** 2)))
    if abs(d - want) > 1e-8 * max(float(np.linalg.norm(m)), 1e-300):
        raise Violation('not-optimal', '%s: keeping %d values the product is %.6g away, the best possible is %.6g' % (what, k, d, want))


def kept(what, k, chi, s):
    rank = int(np.sum(s > 1e-9 * max(s[0], 1e-300))) if len(s) else 0
    if k > chi or k > len(s):
        raise Violation('too-many', '%s: %d values kept of %d, at most %d asked for' % (what, k, len(s), chi))
    if k < min(chi, rank):
        raise Violation('too-few', '%s: only %d values kept, rank %d, %d asked for' % (what, k, rank, chi))


def error_is(what, err, lost, total):
    want = lost / total if total > 0 else 0.0
    err = float(np.real(to_np(err)))
    if not np.isfinite(err) or abs(err - want) > 1e-8:
        raise Violation('wrong-error', '%s: reported error %r, discarded weight %.10g' % (what, err, want))


def factors(what, m, u, s, vh, err, chi, order):
    """Everything that must hold of a truncated singular value decomposition."""
    ex = np.linalg.svd(m, compute_uv=False)
    k = len(s)
    kept(what, k, chi, ex)
    if u.shape != (m.shape[0], k) or vh.shape != (k, m.shape[1]):
        raise Violation('wrong-factors', '%s: factors of shapes %s, %s, %s' % (what, u.shape, s.shape, vh.shape))
    if not eye(u.conj().T @ u) or not eye(vh @ vh.conj().T):
        raise Violation('not-isometry', '%s: a factor is no isometry' % what)
    if k and float(np.max(np.abs(s - ex[:k]))) > TOL * max(ex[0], 1e-300):
        raise Violation('wrong-factors', '%s: other singular values than the matrix has (in decreasing order)' % what)
    optimal(what, m, (u * s) @ vh, ex, k)
    error_is(what, err, float(np.sum(ex[k:] ** order)), float(np.sum(ex ** order)))


def matrix(rng, s):
    rs = np.random.RandomState(s % (1 << 31))
    n, m = rng.randint(1, 6), rng.randint(1, 6)
    cplx = rng.random() < 0.3
    big = rng.random() < 0.03
    if big:
        n, m = rng.randint(17, 40), rng.randint(17, 40)
    kind, sv = spectrum(rng, min(n, m))
    while big and kind == 'steep':
        kind, sv = spectrum(rng, min(n, m))
    scale = rng.choice([1.0, 1.0, 1.0, 1e-5, 1e5])
    a = (unitary(rs, n, cplx)[:, :min(n, m)] * (sv * scale)) @ unitary(rs, m, cplx)[:min(n, m)]
    return kind, a


class Case:
    def __init__(self, world, fn, post, what):
        self.world, self.fn, self.post, self.what = world, fn, post, what


def c_svd(op, rng, st):
    kind, m = matrix(rng, op['s'])
    chi, order, sv = rng.randint(1, min(m.shape) + 1), rng.choice([2, 2, 1, 4]), rng.random() < 0.6
    what = 'decomposition of a %s matrix (%s, chi = %d, %s)' % (m.shape, kind, chi, 'values' if sv else 'two factors')

    def fn(w):
        if not sv and order == 2:
            return ctl.decompose.SVDDecomposition(w[0], chi)
        return ctl.decompose.SVDDecomposition(w[0], chi=chi, returnSV=sv, errorOrder=order)

    def post(r):
        if sv:
            u, s, vh, err = r
            factors(what, m, to_np(u), to_np(s), to_np(vh), err, chi, order)
            return len(to_np(s))
        u, v, err = r
        u, v = to_np(u), to_np(v)
        ex = np.linalg.svd(m, compute_uv=False)
        k = u.shape[1]
        kept(what, k, chi, ex)
        if v.shape != (m.shape[1], k):
            raise Violation('wrong-factors', '%s: factors of shapes %s and %s' % (what, u.shape, v.shape))
        optimal(what, m, u @ v.conj().T, ex, k)
        for x in (u, v):
            if k and float(np.max(np.abs(x.conj().T @ x - np.diag(ex[:k])))) > 1e-8 * max(ex[0], 1e-300):
                raise Violation('wrong-factors', '%s: the singular values are not divided evenly between the factors' % what)
        error_is(what, err, float(np.sum(ex[k:] ** order)), float(np.sum(ex ** order)))
        return k
    return Case([ref.host(m)], fn, post, what)


def c_tsvd(op, rng, st):
    t = rng.choice(st['ts'])
    world = st['ts']
    if rng.random() < 0.04:
        t = ref.mk(dict(labels=['a', 'b', 'c'], dims=rng.choice([[5, 6, 30], [20, 6, 4], [4, 36, 9], [3, 17, 7]]), seed=op['s'], cplx=rng.random() < 0.3))
        world = [t]
    labels = list(t.labels)
    if len(labels) < 2 or len(set(labels)) != len(labels):
        return None
    order = labels[:]
    rng.shuffle(order)
    cut = rng.randint(1, len(order) - 1)
    rows, cols = order[:cut], order[cut:]
    drop = rng.random()
    a_rows, a_cols = rows, cols
    if drop < 0.15:
        rows = [x for x in labels if x in rows]
        a_rows = None
    elif drop < 0.3:
        cols = [x for x in labels if x in cols]
        a_cols = None
    inner = rng.choice([None, ('x', 'y')])
    d = ref.dense(t)
    m = np.transpose(d, [labels.index(x) for x in rows + cols]).reshape(int(np.prod([t.legs[labels.index(x)].dim for x in rows])), -1)
    chi, eo = rng.choice([16, rng.randint(1, min(m.shape) + 1)]), rng.choice([2, 2, 4])
    what = 'decomposition of a tensor by %s | %s (chi = %d)' % (a_rows, a_cols, chi)
    i = world.index(t)

    def fn(w):
        kw = {}
        if chi != 16:
            kw['chi'] = chi
        if eo != 2:
            kw['errorOrder'] = eo
        if inner is not None:
            kw['innerLabels'] = inner
        return ctl.tensorFunc.tensorSVDDecomposition(w[i], rows=None if a_rows is None else list(a_rows), cols=None if a_cols is None else list(a_cols), **kw)

    def post(r):
        u, s, v = r['u'], r['s'], r['v']
        if u.dim != 2 or v.dim != 2 or s.dim != 2 or not s.diagonalFlag:
            raise Violation('wrong-factors', '%s: factors with %d, %d and %d legs' % (what, u.dim, s.dim, v.dim))
        rn, cn = '|'.join(rows), '|'.join(cols)
        il, ir = inner if inner is not None else ('inner:' + rn, 'inner:' + cn)
        want = [[rn, il], [rn, cn], [ir, cn]]
        if [list(x.labels) for x in (u, s, v)] != want:
            raise Violation('wrong-factors', '%s: legs %s, expected %s' % (what, [list(x.labels) for x in (u, s, v)], want))
        ref.check_struct([u, s, v], what)
        factors(what, m, to_np(u.a), to_np(s.a), to_np(v.a), r['error'], chi, eo)
        k = s.shape[0]
        if rng.random() < 0.5:
            ctl.link.makeLink(u.legs[1], s.legs[0])
            ctl.link.makeLink(s.legs[1], v.legs[0])
            f = ctl.contract.contractTwoTensors
            whole = f(f(u, s), v) if rng.random() < 0.5 else f(u, f(s, v))
            optimal(what + ', factors linked and contracted', m, ref.dense(whole) if [x.name for x in whole.legs] == [rn, cn] else ref.dense(whole).T,
                    np.linalg.svd(m, compute_uv=False), k)
        return k
    return Case(world, fn, post, what)


def c_env(op, rng, st):
    n = rng.randint(1, 6) if rng.random() < 0.97 else rng.randint(17, 40)
    rs = np.random.RandomState(op['s'] % (1 << 31))
    kind, ev = spectrum(rng, n)
    while n > 6 and kind == 'steep':
        kind, ev = spectrum(rng, n)
    q = unitary(rs, n, rng.random() < 0.3)
    a = (q * ev) @ q.conj().T
    a = (a + a.conj().T) / 2
    chi = rng.randint(1, n + 1)
    th = rng.choice([None, None, 1e-8])
    if kind == 'steep' and rng.random() < 0.5:
        th = float(ev[rng.randrange(n)] * 0.5)
    what = 'projector from a %s environment of size %d (chi = %d%s)' % (kind, n, chi, '' if th is None else ', threshold')
    exist = int(np.sum(ev > (1e-10 if th is None else th)))

    def fn(w):
        return ctl.linalg.solveEnv(w[0], chi) if th is None else ctl.linalg.solveEnv(w[0], chi=chi, threshold=th)

    def post(r):
        p, err = to_np(r[0]), r[1]
        k = p.shape[1]
        if k > chi or k > max(exist, 1):
            raise Violation('too-many', '%s: %d columns, at most %d asked for, %d eigenvalues above the threshold' % (what, k, chi, exist))
        if k < min(chi, exist):
            raise Violation('too-few', '%s: only %d columns, %d eigenvalues above the threshold' % (what, k, exist))
        if p.shape[0] != n or not eye(p.conj().T @ p):
            raise Violation('not-isometry', '%s: the projector has no orthonormal columns' % what)
        w = np.real(np.diag(p.conj().T @ a @ p))
        if k and float(np.max(np.abs(w - ev[:k]))) > 1e-8 * max(ev[0], 1e-300) + 1e-12:
            raise Violation('not-optimal', '%s: the columns carry %s of the eigenvalues %s' % (what, np.round(w, 6), np.round(ev, 6)))
        error_is(what, err, float(np.sum(ev[k:])) if chi <= exist else 0.0, float(np.sum(ev)))
        return k
    return Case([ref.host(a)], fn, post, what)


def c_iso(op, rng, st):
    rs = np.random.RandomState(op['s'] % (1 << 31))
    dims = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
    n = int(np.prod(dims))
    k = rng.randint(1, n)
    u = unitary(rs, n, rng.random() < 0.4)[:, :k]
    good = rng.random() < 0.5
    if not good:
        how = rng.choice(['scale', 'element', 'phase'])
        if how == 'scale':
            u = u * rng.choice([1.01, 0.99, 2.0])
        elif how == 'element':
            u = np.array(u)
            u[rng.randrange(n), rng.randrange(k)] += 1e-2
        elif k > 1:
            u = np.array(u)
            u[:, 0] = u[:, 1]
        else:
            u = u * 1.5
    names = ['q%d' % x for x in range(len(dims))]
    a = u.reshape(dims + [k])
    perm = list(range(len(dims) + 1))
    rng.shuffle(perm)
    t = ctl.Tensor(data=ref.host(np.transpose(a, perm)), labels=[(names + ['o'])[x] for x in perm])
    rng.shuffle(names)
    what = 'isIsometry of %s tensor over %s' % ('an isometric' if good else 'another', names)
    # what the function must say, whatever was done to the elements
    m = u.conj().T @ u
    dev = float(np.max(np.abs(m - np.eye(k))))
    if 1e-12 < dev < 1e-6:
        return None

    def fn(w):
        return ctl.tensorFunc.isIsometry(w[0], list(names))

    def post(r):
        if bool(r) != (dev < 1e-9):
            raise Violation('wrong-answer', '%s says %s, the deviation from the identity is %.3g' % (what, bool(r), dev))
        return bool(r)
    return Case([t], fn, post, what)


def chain(n, seed):
    rng, rs = random.Random('chain/%s' % seed), np.random.RandomState(seed % (1 << 31))
    bond = [1] + [rng.randint(1, 3) for _ in range(n - 1)] + [1]
    arr = [rs.standard_normal((bond[k], rng.randint(1, 3), bond[k + 1])) for k in range(n)]
    return arr


def chain_tensors(arr):
    ts = [ctl.Tensor(data=ref.host(a), labels=['l%d' % k, 'p%d' % k, 'r%d' % k]) for k, a in enumerate(arr)]
    for k in range(len(ts) - 1):
        ctl.link.makeLink('r%d' % k, 'l%d' % (k + 1), ts[k], ts[k + 1])
    return ts


def chain_value(arr):
    v = arr[0]
    for a in arr[1:]:
        v = np.tensordot(v, a, axes=(v.ndim - 1, 0))
    return v


def c_chain(op, rng, st):
    """Truncate one bond: contract its two tensors, decompose, put the factors back."""
    arr, ts = st['arr'], st['chain']
    k = rng.randrange(len(ts) - 1)
    theta = np.tensordot(arr[k], arr[k + 1], axes=(2, 0))
    l, p, q, r = theta.shape
    m = theta.reshape(l * p, q * r)
    u, s, vh = np.linalg.svd(m, full_matrices=False)
    if s[0] < 1e-8:
        return None
    # only directions that are determined: the truncation of a neighbouring bond depends on all of them
    rank = int(np.sum(s > 1e-6 * s[0]))
    chi = rng.randint(1, rank)
    while chi < rank and s[chi - 1] - s[chi] < 1e-5 * s[0]:
        chi += 1
    what = 'truncating bond %d of a chain to %d' % (k, chi)
    merge = rng.random() < 0.5
    names = (['l%d' % k, 'p%d' % k], ['p%d' % (k + 1), 'r%d' % (k + 1)])

    def fn(w):
        # on a linked copy: the chain itself must stay usable when this is stopped
        c = ctl.optimalContract.copyTensorList(w)
        t = ctl.contract.contractTwoTensors(c[k], c[k + 1])
        if merge:
            t.outProduct(names[0], '|'.join(names[0]))
            t.outProduct(names[1], '|'.join(names[1]))
            d = ctl.tensorFunc.tensorSVDDecomposition(t, rows=['|'.join(names[0])], cols=['|'.join(names[1])], innerLabels=('r%d' % k, 'l%d' % (k + 1)), chi=chi)
        else:
            d = ctl.tensorFunc.tensorSVDDecomposition(t, rows=names[0], cols=names[1], innerLabels=('r%d' % k, 'l%d' % (k + 1)), chi=chi)
        ctl.link.makeLink(d['s'].legs[1], d['v'].legs[0])
        right = ctl.contract.contractTwoTensors(d['s'], d['v'])
        return d['u'], right, d['s'], d['error']

    def post(res):
        left, right, sv, err = res
        x = len(to_np(sv.a))
        kept(what, x, chi, s)
        error_is(what, err, float(np.sum(s[x:] ** 2)), float(np.sum(s ** 2)))
        b = np.array(to_np(right.a))
        if list(right.labels) == [right.labels[0], '|'.join(names[0])]:
            b = b.T
        if b.shape != (x, q * r):
            raise Violation('wrong-factors', '%s: the right factor has shape %s' % (what, b.shape))
        arr[k] = u[:, :x].reshape(l, p, x)
        arr[k + 1] = (s[:x, None] * vh[:x]).reshape(x, q, r)
        new = [np.array(to_np(t.a)) for t in ts]
        new[k] = np.array(to_np(left.a)).reshape(l, p, x)
        new[k + 1] = b.reshape(x, q, r)
        st['chain'] = chain_tensors(new)
        whole = ctl.optimalContract.contractTensorList(ctl.optimalContract.copyTensorList(st['chain']))
        every = ['l0'] + ['p%d' % j for j in range(len(ts))] + ['r%d' % (len(ts) - 1)]
        order = list(whole.labels)
        if sorted(order) != sorted(every):
            raise Violation('wrong-factors', '%s: the chain has legs %s' % (what, order))
        if not ref.close(np.transpose(ref.dense(whole), [order.index(y) for y in every]), chain_value(arr), 1e-8):
            raise Violation('not-optimal', '%s: the chain no longer has the value of the best truncation' % what)
        return x
    return Case(ts, fn, post, what)


CASES = dict(svd=c_svd, tsvd=c_tsvd, env=c_env, iso=c_iso, chain=c_chain)


def flat(w):
    return [x for x in w if not isinstance(x, ctl.Tensor)]


def run(spec, sim):
    arr = chain(spec['chain'], spec['cs'])
    st = dict(ts=ref.build(spec['net']), arr=arr, chain=chain_tensors(arr))
    for oi, op in enumerate(spec['ops']):
        rng = random.Random('c23/%s' % op['s'])
        c = CASES[op['op']](op, rng, st)
        if c is None:
            continue
        what = 'step %d (%s)' % (oi, c.what)
        c.what = what
        ten = [x for x in c.world if isinstance(x, ctl.Tensor)]
        was = [np.array(to_np(x)) for x in flat(c.world)]

        def intact(w, snap=ref.Snap(ten)):
            snap.check(w, 'input-modified')
            for x, y in zip(flat(c.world), was):
                if not np.array_equal(to_np(x), y):
                    raise Violation('input-modified', '%s changed the matrix it was given' % w)
        o = None
        if op.get('fault'):
            o = sim.step(c.world, c.fn, op['fault'])
            if o.kind == 'fault':
                sim.nontrivial = True
                sim.state(op['op'], sim.where)
                intact(what + ' stopped')
                o = None
        if o is None:
            o = sim.call(lambda: c.fn(c.world))
        sim.expect_ok(o, what)
        sim.note(what, o.kind)
        intact(what)
        k = c.post(o.value)
        if op['op'] == 'chain':
            sim.nontrivial = True
        sim.state(op['op'], c.what.split(':')[0][-40:], k)
        sim.count(op['op'])
