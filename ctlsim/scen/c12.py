"""C12: histories of MPS operations, some rejected or failing, against the represented state by physical leg."""
import copy

import numpy as np

from .. import ctl, drv, ref
from ..core import Violation, describe, to_np

RUNS = {'quick': 12000, 'thorough': 200000}
BATCH = 25
RULE = 'one or two matrix product states of 2-5 tensors (linked through 0-3 physical legs, or split off a dense tensor); canonicalise, swap, move, make adjacent, merge, contract, query and rejected calls, some stopped at a backend call and repeated. Non-trivial: at least one failed or rejected call, or four operations.'
STATES = 'hash of (number of MPSs, lengths, truncating or not, operation, outcome, backend call that failed)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy'


def gen_fault(rng, p):
    if rng.random() >= p:
        return None
    return dict(kind=rng.choice(['oom', 'device', 'kbd', 'linalg']), frac=rng.random())


def gen(rng, tier, i):
    if rng.random() < 0.15:
        # one decomposition of two tensors with several links
        nb = rng.randint(1, 3)
        fa, fb = rng.randint(0, 2), rng.randint(0, 2)
        if fa + fb == 0:
            fa = 1
        bd = [rng.randint(1, 3) for _ in range(nb)]
        return dict(pair=True, bd=bd, fa=[rng.randint(1, 3) for _ in range(max(fa, 1))], fb=[rng.randint(1, 3) for _ in range(max(fb, 1))], cplx=rng.random() < 0.3,
                    chi=rng.choice([1, 2, 3, 64]), root=rng.random() < 0.5, swap=rng.random() < 0.4, seed=rng.randrange(1 << 30), ops=[],
                    fill=rng.choice([None, None, None, None, 'units', 'sparse', 'one']), scale=rng.choice([1.0, 1.0, 1.0, 0.1, 100.0, 10000.0]))
    n = [rng.randint(2, 5)]
    two = rng.random() < 0.55
    if two:
        n.append(rng.randint(1 if rng.random() < 0.15 else 2, 4))
    cplx = rng.random() < 0.25
    made = [rng.choice(['list', 'list', 'random', 'tensor']) for _ in n]
    shared = min(n + [rng.choice([1, 1, 2, 2, 3])]) if two and rng.random() < 0.85 else 0
    same = shared > 0
    d0 = rng.randint(2, 3)
    mps = []
    for k, m in enumerate(n):
        phys = [d0 if same else rng.randint(2, 3) for _ in range(m)]
        if m == 5 or sum(n) - 2 * shared > 6:
            phys = [2 if same or d0 else d for d in phys]
        mps.append(dict(made=made[k] if m > 1 else 'list', phys=phys, virt=[rng.choice([1, 2, 2, 3, 4]) for _ in range(m - 1)], seed=rng.randrange(1 << 30),
                        cplx=cplx and rng.random() < 0.8))
    if same:
        d = 2 if any(2 in m['phys'] for m in mps) else d0
        for m in mps:
            m['phys'] = [d] * len(m['phys'])
    for m in mps:
        if rng.random() < 0.3:
            m['scale'] = rng.choice([0.4, 30.0, 1000.0])
        if rng.random() < 0.2:
            m['fill'] = rng.choice(['units', 'sparse'])
    links = list(zip(rng.sample(range(n[0]), shared), rng.sample(range(n[-1]), shared))) if shared else []
    chi = rng.choice([64, 64, 64, 2, 3, 4, 1])
    ops = []
    for _ in range(rng.randint(2, 10)):
        ops.append(dict(op=rng.choice(['canon', 'canon', 'canon', 'swap', 'swap', 'swap', 'move', 'adj', 'merge', 'merge', 'contract', 'copy', 'dense', 'query', 'bad', 'bad', 'set', 'bybond']),
                        m=rng.randrange(2), x=rng.randrange(12), y=rng.randrange(12), fault=gen_fault(rng, 0.35)))
    return dict(mps=mps, links=[list(l) for l in links], chi=chi, chi2=chi if rng.random() < 0.8 else rng.choice([64, 3]), inplace=rng.random() < 0.6,
                default=rng.random() < 0.04, ops=ops)


class World:
    pass


def make_tensors(ms):
    n = len(ms['phys'])
    rs = np.random.RandomState(ms['seed'] % (2 ** 32))
    ts = []
    for i in range(n):
        labels, dims = ['p'], [ms['phys'][i]]
        if i > 0:
            labels.append('x')
            dims.append(ms['virt'][i - 1])
        if i < n - 1:
            labels.append('y')
            dims.append(ms['virt'][i])
        p = list(rs.permutation(len(dims)))
        labels, dims = [labels[k] for k in p], [dims[k] for k in p]
        a = rs.uniform(-1, 1, size=dims)
        if ms['cplx']:
            a = a + 1j * rs.uniform(-1, 1, size=dims)
        if ms.get('fill') == 'units':
            a = np.where(a.real > 0, 1.0, -1.0).astype(a.dtype)
        elif ms.get('fill') == 'sparse':
            a.reshape(-1)[1:] *= rs.uniform(-1, 1, size=a.size - 1) > 0
        a = a / np.linalg.norm(a) * ms.get('scale', 1.5)
        ts.append(ctl.Tensor(data=ref.host(a), labels=labels, shape=tuple(dims)))
    for i in range(n - 1):
        ctl.link.makeLink('y', 'x', ts[i], ts[i + 1])
    return ts


def build(ms, chi, inplace):
    """(MPS, its physical legs in order)."""
    MPS = ctl.MPS
    if ms['made'] == 'random':
        virt = list(ms['virt'])
        m = MPS.makeRandomMPS(len(ms['phys']), virt, list(ms['phys']), chi=chi)
        return m, [t.getLeg('o') for t in m._tensors]
    ts = make_tensors(ms)
    if ms['made'] == 'tensor':
        a = ref.einsum_value(ts)[1]
        t = ctl.Tensor(data=ref.host(a), labels=['q%d' % k for k in range(a.ndim)])
        legs = list(t.legs)
        m = MPS.createMPSFromTensor(t, chi=chi)
        return m, legs
    if len(ts) == 1:
        return MPS.FreeBoundaryMPS(ts, chi=chi), [ts[0].legs[0]]
    m = MPS.FreeBoundaryMPS(ts, chi=chi, inplace=inplace)
    return m, [t.getLeg('o') for t in m._tensors]


def tensors(w):
    return [t for m in w.mps for t in m._tensors]


def value(w, what):
    """Array over the free physical legs, in the order of w.free."""
    legs, a = ref.einsum_value(tensors(w))
    pos = {id(g): k for k, g in enumerate(legs)}
    if set(pos) != set(id(g) for g in w.free):
        raise Violation('legs', '%s: the free legs of the state are %s, expected %s of the physical legs' % (what, [(g.name, g.dim) for g in legs], len(w.free)))
    return np.transpose(a, [pos[id(g)] for g in w.free]) if w.free else a


def shape_of(w, what):
    """Structure of every MPS: neighbours linked r-l once, one physical leg each."""
    ref.check_struct(tensors(w), what)
    for k, m in enumerate(w.mps):
        ts = m._tensors
        for i, t in enumerate(ts):
            want = sorted((['l'] if i > 0 else []) + (['r'] if i < len(ts) - 1 else []) + ['o'])
            if sorted(t.labels) != want:
                raise Violation('structure', '%s: tensor %d of MPS %d has legs %s' % (what, i, k, t.labels))
        for i in range(len(ts) - 1):
            g = ts[i].getLeg('r')
            o = ref.other(g)
            if o is None or o is not ts[i + 1].getLeg('l'):
                raise Violation('structure', '%s: tensors %d and %d of MPS %d are not linked' % (what, i, i + 1, k))


def bonds(m):
    return [t.getLeg('r').dim for t in m._tensors[:-1]]


def isometry(m, i, side):
    """Deviation of tensor i from an isometry onto its leg `side`."""
    t = m._tensors[i]
    k = t.labels.index(side)
    a = np.moveaxis(ref.dense(t), k, -1)
    a = a.reshape(-1, a.shape[-1])
    return float(np.max(np.abs(a.conj().T @ a - np.eye(a.shape[1]))))


def canon_dev(m, idx):
    return max([isometry(m, i, 'r') for i in range(idx)] + [isometry(m, i, 'l') for i in range(idx + 1, m.n)] + [0.0])


def pair(m, i, j):
    """Product of two neighbouring tensors by leg."""
    return ref.einsum_value([m._tensors[i], m._tensors[j]])


def damage(w, old, what, exact):
    """What a failed call broke: None if the state is intact."""
    try:
        shape_of(w, what)
        v = value(w, what)
        if exact and not ref.close(v, old):
            return 'a different state'
        return None
    except Violation:
        pass
    names = [g.name for t in tensors(w) for g in t.legs]
    out = []
    if any(x.startswith('a-') or x.startswith('b-') for x in names):
        out.append('tagged legs')
    if any(g.tensor is not t for t in tensors(w) for g in t.legs):
        out.append('legs that moved to another tensor')
    if any(ref.other(g) is None for t in tensors(w) for g in t.legs if g.name in 'lr'):
        out.append('cut links')
    if not out:
        for m in w.mps:
            for i in range(len(m._tensors) - 1):
                g = [x for x in m._tensors[i].legs if x.name == 'r']
                if not g or ref.other(g[0]) is None or not any(ref.other(g[0]) is x for x in m._tensors[i + 1].legs):
                    return 'neighbours without a link'
        return 'an inconsistent state'
    return ', '.join(out)


def shared_idx(w):
    a, b = w.mps
    out = []
    for i, t in enumerate(a._tensors):
        for g in t.legs:
            o = ref.other(g)
            if g.name == 'o' and o is not None:
                for j, s in enumerate(b._tensors):
                    if any(x is o for x in s.legs):
                        out.append((i, j))
    return out


def run_pair(spec, sim):
    na, nb = ['a%d' % k for k in range(len(spec['fa']))], ['b%d' % k for k in range(len(spec['fb']))]
    bl = ['s%d' % k for k in range(len(spec['bd']))]
    rs = np.random.RandomState(spec['seed'] % (2 ** 32))

    def mk(names, dims):
        p = list(rs.permutation(len(names)))
        a = ref.values(dict(seed=rs.randint(1 << 30), cplx=spec['cplx'], fill=spec.get('fill'), scale=spec.get('scale', 1.0)), dims)
        return ctl.Tensor(data=ref.host(np.transpose(a, p)), labels=[names[k] for k in p])
    ta, tb = mk(na + bl, spec['fa'] + spec['bd']), mk(nb + bl, spec['fb'] + spec['bd'])
    for l in bl:
        ctl.link.makeLink(l, l, ta, tb)
    swap = ([na[0]], [nb[0]]) if spec['swap'] else ([], [])
    if spec['swap']:
        na, nb = nb[:1] + na[1:], na[:1] + nb[1:]       # swapped legs change sides and keep their names
    legs, val = ref.einsum_value([ta, tb])
    if float(np.max(np.abs(val))) <= 1e-8:
        return
    ga = [g for g in legs if g.name in na]
    gb = [g for g in legs if g.name in nb]
    o = sim.call(lambda: ctl.Schimdt.SchimdtDecomposition(ta, tb, spec['chi'], squareRootSeparation=spec['root'], swapLabels=swap))
    sim.expect_ok(o, 'decomposition')
    sim.nontrivial = True
    u, s, v = o.value
    parts = [u, v] if s is None else [u, s, v]
    ref.check_struct(parts, 'decomposition')
    if (s is None) != spec['root']:
        raise Violation('structure', 'decomposition: middle tensor %s' % ('missing' if s is None else 'not expected'))
    gl, got = ref.einsum_value(parts)
    ids = [id(g) for g in gl]
    if set(ids) != set(id(g) for g in legs) or len(ids) != len(legs):
        raise Violation('legs', 'decomposition: free legs %s, expected %s' % ([g.name for g in gl], [g.name for g in legs]))
    got = np.transpose(got, [ids.index(id(g)) for g in legs])
    for t, want in ((u, ga), (v, gb)):
        if set(id(g) for g in want) != set(id(g) for g in t.legs if any(g is h for h in legs)):
            raise Violation('swap', 'decomposition: legs %s on one side, expected %s' % (t.labels, [g.name for g in want]))
    order = [[id(g) for g in legs].index(id(g)) for g in ga + gb]
    mat = np.transpose(val, order).reshape(int(np.prod([g.dim for g in ga])), -1)
    gm = np.transpose(got, order).reshape(mat.shape)
    sv = np.linalg.svd(mat, compute_uv=False)
    drop = float(np.sqrt(np.sum(sv[spec['chi']:] ** 2)))
    if abs(float(np.linalg.norm(gm - mat)) - drop) > 1e-8 * sv[0]:
        raise Violation('truncation', 'decomposition lost %.6g, the best with chi %d is %.6g' % (float(np.linalg.norm(gm - mat)), spec['chi'], drop))
    inner = [g for g in u.legs if not any(g is h for h in legs)]
    if len(inner) != 1 or inner[0].dim > spec['chi']:
        raise Violation('bond-too-large', 'decomposition: inner legs %s with chi %d' % ([g.dim for g in inner], spec['chi']))
    if s is not None:
        for t in (u, v):
            g = [g for g in t.legs if not any(g is h for h in legs)][0]
            a = np.moveaxis(ref.dense(t), [x is g for x in t.legs].index(True), -1)
            a = a.reshape(-1, a.shape[-1])
            if np.max(np.abs(a.conj().T @ a - np.eye(a.shape[1]))) > 1e-10:
                raise Violation('canonical', 'decomposition: a side is not an isometry')
        d = to_np(s.a)
        if d.ndim != 1 or np.any(np.abs(d - sv[:len(d)]) > 1e-9 * sv[0]):
            raise Violation('truncation', 'decomposition: singular values %s, expected %s' % (d, sv[:len(d)]))
    sim.state('pair', len(spec['bd']), spec['swap'], spec['root'], len(ga), len(gb), inner[0].dim)
    sim.note('pair', mat.shape, inner[0].dim)


def run(spec, sim):
    if spec.get('pair'):
        return run_pair(spec, sim)
    MPS = ctl.MPS
    w = World()
    w.mps, w.free = [], []
    chis = [spec['chi'], spec['chi2']]
    phys = []
    for k, ms in enumerate(spec['mps']):
        if ms['made'] != 'random' and float(np.max(np.abs(ref.einsum_value(make_tensors(ms))[1]))) <= 1e-8:
            o = sim.call(lambda: build(ms, chis[k], spec['inplace']))
            if not o.ok and o.kind == 'raised':
                sim.finding('tiny-values', 'an MPS of a state that is zero cannot be made from a tensor')
            return
        m, legs = build(ms, chis[k], spec['inplace'])
        w.mps.append(m)
        phys.append(legs)
    for i, j in spec['links']:
        if len(phys) > 1 and i < len(phys[0]) and j < len(phys[1]) and phys[0][i].bond is None and phys[1][j].bond is None and phys[0][i].dim == phys[1][j].dim:
            ctl.link.makeLink(phys[0][i], phys[1][j])
    w.free = [g for l in phys for g in l if g.bond is None]
    exact = spec['chi'] >= 64 and spec['chi2'] >= 64
    for k, m in enumerate(w.mps):
        if m.chi != chis[k]:
            raise Violation('chi', 'MPS %d was made with chi %s and has chi %s' % (k, chis[k], m.chi))
    shape_of(w, 'at the start')
    if spec['default']:
        probe_default(spec, sim)
    cur = value(w, 'at the start')
    if float(np.max(np.abs(cur))) <= 1e-8:
        return
    nops = 0

    def attempt(fn, what, fault, name, relax=False):
        """Run fn(w), first with the fault; returns (outcome, text).  A call that failed must leave w intact."""
        nonlocal w, cur
        if fault is not None:
            backup = copy.deepcopy(w)
            o = sim.step(w, fn, fault)
            how = '%s stopped by %s at %s' % (what, fault['kind'], sim.where) if o.fired else what
            sim.note(how, o.kind)
            sim.state(len(w.mps), name, exact, o.kind, sim.where)
            sim.expect_ok(o, how)
            if o.ok:
                return o
            d = damage(w, cur, how, exact)
            if d is not None:
                sim.finding('partial-update', 'MPS: a failed %s left %s' % (name, d))
                w = backup
                sim.count('partial_updates_stepped_around')
            elif not exact:
                cur = value(w, how)
        o = sim.call(lambda: fn(w))
        sim.note(what, o.kind)
        sim.state(len(w.mps), name, exact, o.kind)
        sim.expect_ok(o, what)
        return o

    for oi, op in enumerate(spec['ops']):
        k, f, x, y = op['op'], op['fault'], op['x'], op['y']
        mi = op['m'] % len(w.mps)
        m = w.mps[mi]
        n = m.n
        what = 'step %d (%s)' % (oi, k)
        touched = True
        if k == 'canon':
            idx = x % n
            attempt(lambda v: v.mps[mi].canonicalize(idx), what, f, 'canonicalize')
            m = w.mps[mi]
            if m.activeIdx != idx:
                raise Violation('canonical', '%s: active index is %s after canonicalizing at %d' % (what, m.activeIdx, idx))
            dev = canon_dev(m, idx)
            if dev > 1e-8:
                raise Violation('canonical', '%s: canonicalized at %d of %d, but a tensor misses the isometry by %.3g' % (what, idx, n, dev))
            if n > 1 and max(bonds(m)) > m.chi:
                raise Violation('bond-too-large', '%s: bonds %s with chi %d' % (what, bonds(m), m.chi))
            if n > 1:
                o = sim.call(lambda: m.checkCanonical())
                sim.expect_ok(o, what + ', checkCanonical')
                if not o.value:
                    raise Violation('canonical', '%s: checkCanonical is false at %d of %d' % (what, idx, n))
        elif k == 'swap':
            if n < 2:
                continue
            i = x % (n - 1)
            i, j = (i, i + 1) if y % 2 else (i + 1, i)
            pl, pa = pair(m, i, j)
            ids = [id(g) for g in pl]
            ga, gb = m._tensors[i].getLeg('o'), m._tensors[j].getLeg('o')
            o = attempt(lambda v: v.mps[mi].swap(i, j), what, f, 'swap')
            m = w.mps[mi]
            if [id(m._tensors[i].getLeg('o')), id(m._tensors[j].getLeg('o'))] == [id(ga), id(gb)] and sim.faults == {}:
                raise Violation('swap', '%s: tensors %d and %d kept their physical legs' % (what, i, j))
            if bonds(m)[min(i, j)] > m.chi:
                raise Violation('bond-too-large', '%s: bonds %s with chi %d' % (what, bonds(m), m.chi))
            ql, qa = pair(m, i, j)
            if set(ids) == set(id(g) for g in ql):
                # best approximation of the product of the two tensors with that many singular values
                qa = np.transpose(qa, [[id(g) for g in ql].index(t) for t in ids])
                left = [c for c, g in enumerate(pl) if any(g is z for z in m._tensors[i].legs)]
                right = [c for c in range(len(pl)) if c not in left]
                mat = np.transpose(pa, left + right).reshape(int(np.prod([pa.shape[c] for c in left])), -1)
                s = np.linalg.svd(mat, compute_uv=False)
                drop = float(np.sqrt(np.sum(s[m.chi:] ** 2)))
                if abs(float(np.linalg.norm(qa - pa)) - drop) > 1e-8 * s[0]:
                    raise Violation('truncation', '%s: swapping lost %.6g of the product of the two tensors, the best with chi %d is %.6g' % (
                        what, float(np.linalg.norm(qa - pa)), m.chi, drop))
        elif k == 'move':
            i, j = x % n, y % n
            g = m._tensors[i].getLeg('o')
            order = [id(t.getLeg('o')) for t in m._tensors]
            attempt(lambda v: v.mps[mi].moveTensor(i, j, warningFlag=False), what, f, 'moveTensor')
            m = w.mps[mi]
            if f is None:
                order.insert(j, order.pop(i))
                if [id(t.getLeg('o')) for t in m._tensors] != order:
                    raise Violation('swap', '%s: moving %d to %d put the physical legs in another order' % (what, i, j))
            touched = i != j
        elif k == 'adj':
            i, j = x % n, y % n
            if i == j:
                continue
            two = sorted([i, j])
            order = [id(t.getLeg('o')) for t in m._tensors]
            o = attempt(lambda v: v.mps[mi].makeAdjacent(i, j), what, f, 'makeAdjacent')
            m = w.mps[mi]
            a, b = o.value
            if b != a + 1 or f is None and {id(m._tensors[a].getLeg('o')), id(m._tensors[b].getLeg('o'))} != {order[two[0]], order[two[1]]}:
                raise Violation('swap', '%s: makeAdjacent(%d, %d) returned %s, where other physical legs are' % (what, i, j, (a, b)))
        elif k in ('merge', 'bybond'):
            if len(w.mps) < 2:
                continue
            sh = shared_idx(w)
            if k == 'merge':
                if any(q.n < 2 for q in w.mps) and len(sh) > 1:
                    continue
                had = [0]       # a failed call may have merged the legs already

                def mm(v):
                    had[0] = len(shared_idx(v))
                    return MPS.mergeMPS(v.mps[0], v.mps[1])
                attempt(mm, what, f, 'mergeMPS')
                left = 1 if sh else 0
            else:
                if len(sh) < 2:
                    continue
                (i1, j1), (i2, j2) = sh[x % len(sh)], sh[(x + 1) % len(sh)]

                def two(v):
                    b1 = v.mps[0]._tensors[i1].getLeg('o').bond
                    b2 = v.mps[0]._tensors[i2].getLeg('o').bond
                    return MPS.doubleMergeByBond(v.mps[0], v.mps[1], b1, b2)
                if f is not None:
                    # a failed call may have moved the bonds: the repeated call looks them up again
                    b0 = len(sh)
                    o = attempt(lambda v: two(v) if len(shared_idx(v)) == b0 and shared_idx(v)[:] == sh else None, what, f, 'doubleMergeByBond')
                else:
                    o = attempt(two, what, None, 'doubleMergeByBond')
                left = len(sh) - 1 if o.value is not None else len(shared_idx(w))
                if o.value is not None and not any(g.bond is o.value for t in w.mps[0]._tensors for g in t.legs if g.name == 'o'):
                    raise Violation('structure', '%s: the bond returned is not on a physical leg of the first MPS' % what)
            if len(shared_idx(w)) != left:
                raise Violation('merge', '%s: %d shared bonds before, %d after' % (what, len(sh), len(shared_idx(w))))
            if left != len(sh):
                for q in w.mps:
                    if q.n > 1 and k == 'merge' and max(bonds(q)) > q.chi and max(bonds(q)) > 64:
                        raise Violation('bond-too-large', '%s: bonds %s with chi %d' % (what, bonds(q), q.chi))
                for i, j in shared_idx(w):
                    g = w.mps[0]._tensors[i].getLeg('o')
                    if exact is False and k == 'merge' and had[0] > 1 and g.dim > min(w.mps[0].chi, w.mps[1].chi):
                        raise Violation('bond-too-large', '%s: the merged bond has dimension %d with chi %d and %d' % (what, g.dim, w.mps[0].chi, w.mps[1].chi))
        elif k == 'contract':
            if len(w.mps) < 2 or len(shared_idx(w)) != 1:
                continue
            o = attempt(lambda v: MPS.contractMPS(v.mps[0], v.mps[1]), what, f, 'contractMPS')
            c = o.value
            want_n = w.mps[0].n + w.mps[1].n - 2
            chi = min(w.mps[0].chi, w.mps[1].chi)
            if want_n == 0:
                z = complex(to_np(c.a).reshape(()))
                if exact and not ref.close(z, cur.reshape(())):
                    raise Violation('wrong-value', '%s: contracted to %s, expected %s' % (what, z, cur))
                sim.note(what, 'scalar')
                return
            if c.n != want_n or c.chi != chi:
                raise Violation('structure', '%s: contracting gave %d tensors with chi %s, expected %d with %s' % (what, c.n, c.chi, want_n, chi))
            w.mps = [c]
            if not exact:
                exact_now = value(w, what)
                cur = exact_now
        elif k == 'copy':
            if n < 2:
                continue
            snap = ref.Snap(tensors(w))
            o = sim.step(w, lambda v: v.mps[mi].copyOfTensors(), f)
            sim.expect_ok(o, what)
            if not o.ok:
                snap.check(what)
                o = sim.call(lambda: w.mps[mi].copyOfTensors())
                sim.expect_ok(o, what)
            snap.check(what)
            ts = o.value
            if any(a is b for a in ts for b in m._tensors) or any(np.shares_memory(a.a._sim_raw, b.a._sim_raw) for a in ts for b in m._tensors if hasattr(a.a, '_sim_raw') and isinstance(a.a._sim_raw, np.ndarray)):
                raise Violation('copy', '%s: the copies share tensors or data with the MPS' % what)
            gl, ga = ref.einsum_value(ts)
            wl, wa = ref.einsum_value([t for t in m._tensors])
            gp = [[id(q) for q in gl].index(id(t.getLeg('o'))) for t in ts]
            wp = [[id(q) for q in wl].index(id(t.getLeg('o'))) for t in m._tensors]
            if not ref.close(np.transpose(ga, gp), np.transpose(wa, wp)):
                raise Violation('wrong-value', '%s: the copied tensors represent another state' % what)
            touched = False
        elif k == 'dense':
            if n < 2 or len(w.mps) > 1 and shared_idx(w):
                continue
            snap = ref.Snap(tensors(w))
            o = sim.step(w, lambda v: v.mps[mi].toTensor(), f)
            if o.ok or o.kind == 'raised':
                sim.expect_ok(o, what)
            if not o.ok:
                snap.check(what + ' stopped')
                o = sim.call(lambda: w.mps[mi].toTensor())
                sim.expect_ok(o, what)
            snap.check(what)
            wl, wa = ref.einsum_value([t for t in m._tensors])
            got = ref.dense(o.value)
            import itertools
            if sorted(o.value.labels) != ['o'] * n or not any(
                    tuple(wa.shape[c] for c in p) == got.shape and ref.close(got, np.transpose(wa, p)) for p in itertools.permutations(range(n))):
                raise Violation('wrong-value', '%s: the dense tensor is not the state, in any order of legs (labels %s)' % (what, o.value.labels))
            touched = False
        elif k == 'query':
            snap = ref.Snap(tensors(w))
            if n > 1:
                for idx in range(n):
                    dev = canon_dev(m, idx)
                    o = sim.call(lambda: m.checkCanonical(idx))
                    sim.expect_ok(o, what)
                    if dev < 1e-12 and not o.value or dev > 1e-6 and o.value:
                        raise Violation('canonical', '%s: checkCanonical(%d) is %s, the largest deviation from isometry is %.3g' % (what, idx, o.value, dev))
            if len(w.mps) > 1:
                sh = shared_idx(w)
                o = sim.call(lambda: (MPS.commonLegs(w.mps[0], w.mps[1]), MPS.commonBonds(w.mps[0], w.mps[1])))
                sim.expect_ok(o, what)
                (ia, ib), bs = o.value
                if sorted(zip(ia, ib)) != sorted(sh) or len(bs) != len(sh):
                    raise Violation('query', '%s: common legs %s, expected %s' % (what, list(zip(ia, ib)), sh))
                for (i, j), b in zip(zip(ia, ib), bs):
                    o = sim.call(lambda: MPS.getBondTensorIndices(w.mps[0], w.mps[1], b))
                    sim.expect_ok(o, what)
                    if tuple(o.value) != (i, j):
                        raise Violation('query', '%s: bond of tensors %s reported at %s' % (what, (i, j), o.value))
            for i, t in enumerate(m._tensors):
                if m.tensorIndex(t) != i or not m.hasTensor(t) or m.getTensor(i) is not t:
                    raise Violation('query', '%s: tensor %d is not found at its place' % (what, i))
            snap.check(what)
            touched = False
        elif k == 'set':
            i = x % n
            m.setTensor(i, m._tensors[i])
            if m.activeIdx is not None:
                raise Violation('canonical', '%s: still active index %s after a tensor was set' % (what, m.activeIdx))
            o = sim.call(lambda: m.checkCanonical())
            if o.kind != 'raised':
                raise Violation('accepted', '%s: checkCanonical without any active index was accepted' % what)
        else:
            snap = ref.Snap(tensors(w))
            before = [(list(q._tensors), q.chi, q.activeIdx) for q in w.mps]
            far = n + x % 3
            pool = [('canonicalize(%d)' % far, lambda: m.canonicalize(far)), ('canonicalize(-1)', lambda: m.canonicalize(-1)), ('canonicalize(0.0)', lambda: m.canonicalize(0.0)),
                    ('swap(0, 2)', lambda: m.swap(0, 2)), ('swap(-1, 0)', lambda: m.swap(-1, 0)), ('swap(n-1, n)', lambda: m.swap(n - 1, n)), ('swap(0, 0)', lambda: m.swap(0, 0)),
                    ('moveTensor(0, n)', lambda: m.moveTensor(0, n)), ('moveTensor(-1, 0)', lambda: m.moveTensor(-1, 0)), ('makeAdjacent(0, 0)', lambda: m.makeAdjacent(0, 0)),
                    ('makeAdjacent(0, n)', lambda: m.makeAdjacent(0, n)), ('setTensor(n)', lambda: m.setTensor(n, m._tensors[0])), ('mergeTensor(n-1)', lambda: m.mergeTensor(n - 1, m._tensors[0])),
                    ('checkCanonical(n)', lambda: m.checkCanonical(n)), ('FreeBoundaryMPS([])', lambda: MPS.FreeBoundaryMPS([], chi=4))]
            if n > 2:
                pool.append(('FreeBoundaryMPS out of order', lambda: MPS.FreeBoundaryMPS(m._tensors[1:] + m._tensors[:1], chi=4)))
            if len(w.mps) > 1 and len(shared_idx(w)) != 1:
                pool += [('contractMPS with %d shared bonds' % len(shared_idx(w)), lambda: MPS.contractMPS(w.mps[0], w.mps[1]))] * 3
            name, fn = pool[(x * 12 + y) % len(pool)]
            o = sim.call(fn)
            sim.nontrivial = True
            sim.note(what, name, o.kind)
            if o.kind != 'raised':
                raise Violation('accepted', '%s: %s on an MPS of %d tensors was accepted' % (what, name, n))
            snap.check('%s: rejected %s' % (what, name))
            after = [(list(q._tensors), q.chi, q.activeIdx) for q in w.mps]
            if any(len(p[0]) != len(q[0]) or any(s is not t for s, t in zip(p[0], q[0])) or p[1:] != q[1:] for p, q in zip(before, after)):
                raise Violation('state-changed', '%s: rejected %s changed the MPS' % (what, name))
            touched = False
        nops += 1
        shape_of(w, what)
        v = value(w, what)
        if exact or not touched:
            if not ref.close(v, cur):
                raise Violation('wrong-value', '%s: the state changed (max |difference| %.3g, scale %.3g)' % (what, float(np.max(np.abs(v - cur))), float(np.max(np.abs(cur)))))
        else:
            cur = v
        sim.note(what, [q.n for q in w.mps], [bonds(q) for q in w.mps])
    if nops > 3:
        sim.nontrivial = True


def probe_default(spec, sim):
    """An MPS made without chi."""
    ts = make_tensors(spec['mps'][0])
    legs = [t.getLeg('p') for t in ts]
    want = ref.einsum_value(ts)
    want = np.transpose(want[1], [[id(q) for q in want[0]].index(id(g)) for g in legs])
    m = ctl.MPS.FreeBoundaryMPS(ts)
    if m.n < 2:
        return
    o = sim.call(lambda: m.canonicalize(0))
    bad = o.kind != 'ok'
    if not bad:
        gl, ga = ref.einsum_value(m._tensors)
        bad = not ref.close(np.transpose(ga, [[id(q) for q in gl].index(id(g)) for g in legs]), want)
    if bad:
        sim.finding('default-chi', 'an MPS made without chi has chi %s and canonicalizing it changes the state' % m.chi)
