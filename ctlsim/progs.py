"""A library of programs over the public interface, each a pure function of its seed, returning everything a
user can see of the result: orders, labels, shapes, costs, values."""
import contextlib
import io
import random

import numpy as np

from . import ctl, ftnlib, ref
from .core import to_np


WATCH = None        # called with every array of a result


def see(x):
    """A result as plain lists, strings and numbers."""
    if x is None or isinstance(x, (str, bool)):
        return x
    if WATCH is not None and not isinstance(x, (list, tuple, set, frozenset, dict)) and hasattr(x, 'dtype'):
        WATCH(x)
    if hasattr(x, 'legs') and hasattr(x, 'shape'):
        if x.tensorLikeFlag:
            return ['like', [g.name for g in x.legs], [g.dim for g in x.legs]]
        return ['T' if not x.diagonalFlag else 'D', [g.name for g in x.legs], [g.dim for g in x.legs], see(x.a)]
    if isinstance(x, (list, tuple)):
        return [see(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((see(y) for y in x), key=repr)
    if isinstance(x, dict):
        return ['dict'] + [[see(k), see(v)] for k, v in x.items()]
    a = to_np(x)
    if a.dtype == object or a.dtype.kind in 'US':
        return [see(y) for y in a.ravel().tolist()]
    if a.dtype.kind in 'biu':
        return ['#i', list(a.shape), [int(y) for y in a.ravel()]]
    if a.dtype.kind == 'c':
        a = np.stack([a.real, a.imag], -1)
    return ['#f', list(a.shape), [float(y) for y in np.asarray(a, dtype=float).ravel()]]


def labels_of(ts):
    out = []
    for t in ts:
        out.append([[g.name, g.dim, None if g.bond is None else ref.other(g).name] for g in t.legs])
    return out


def net_of(rng, **k):
    k.setdefault('nmax', 5)
    k.setdefault('limit', 5000)
    return ref.gen_net(rng, **k)


def p_plan(rng):
    """Orders: greedy, pruned and exhaustive searches, equal dimensions so that many orders tie."""
    net = net_of(rng, nmax=6, same_dim=0.7, diag=0.4, openp=0.3, connected=0.7)
    oc = ctl.optimalContract
    ts = ref.build(net)
    like = rng.random() < 0.3
    if like:
        ts = oc.copyTensorList(ts, tensorLikeFlag=True)
    out = []
    for kw in (dict(), dict(bf=True), dict(typicalDim=None), dict(bf=True, typicalDim=None)):
        out.append([list(map(int, s)) for s in oc.generateOptimalSequence(ts, **kw)])
    out.append([list(map(int, s)) for s in oc.generateGreedySequence(ts)])
    g = oc.makeTensorGraph(ts)
    out.append([[e.weight for e in v.edges] for v in g.v])
    out.append([[None if v is None else v.index for v in e.vertices] + [e.weight] for e in g.getEdges()])
    return out


def p_contract(rng):
    net = net_of(rng, diag=0.3, cplx=0.2)
    oc = ctl.optimalContract
    out = []
    n = len(net['tensors'])
    for how in rng.sample(['list', 'seq', 'rand', 'cost', 'greedy', 'copy'], 3):
        ts = ref.build(net)
        if how == 'list':
            out.append(oc.contractTensorList(ts, outProductWarning=False))
        elif how == 'seq':
            out.append(oc.contractWithSequence(ts, outProductWarning=False))
        elif how == 'rand':
            out.append(oc.contractWithSequence(ts, seq=[tuple(s) for s in ref.rand_seq(rng, n)], inplace=True, outProductWarning=False))
        elif how == 'cost':
            out.append(oc.contractAndCostWithSequence(ts, outProductWarning=False))
        elif how == 'greedy':
            out.append(oc.contractAndCostWithSequence(ts, greedy=True, outProductWarning=False))
        else:
            c = oc.copyTensorList(ts)
            out.append([c, labels_of(c)])
    return out


def p_ftn(rng):
    d = ftnlib.gen_desc(rng, nmax=5)
    f = ftnlib.build_ftn(d)
    inp = ftnlib.gen_input(rng, d)
    out = [ftnlib.call(f, d, inp, rng.random() < 0.5) for _ in range(2)]
    ts = [m for m in d['names']]
    return out + [ts, list(f.tensorNames), str(f.optimalSeq)]


def p_edit(rng):
    """A history of in-place operations; labels, links and data of every tensor after each."""
    from .scen import c05
    net = net_of(rng, nmax=5, diag=0.2, cplx=0.2, uniform_labels=0.0)
    ts = ref.build(net)
    legs, arr = ref.einsum_value(ts)
    model = ([g.name for g in legs], arr)
    out = []
    for k in range(rng.randint(3, 8)):
        op = dict(op=rng.choice(['reArrange', 'toTensor', 'moveLabels', 'moveLegs', 'outProduct', 'rename', 'renames', 'addTag', 'sumOut', 'sumOutList', 'mergeLink', 'merge', 'mergeChi',
                                 'mergeLinkName', 'contract', 'matmul', 'contractBonds']), s=rng.randrange(1 << 30))
        p = c05.plan(op, ts, model, k)
        if p is None:
            continue
        p[0](ts)
        model = p[1]
        out.append([op['op'], labels_of(ts), list(ts)])
    return out


def p_pair(rng):
    """Two tensors with several links: contraction, decomposition, merging, truncation."""
    nb = rng.randint(1, 4)
    bd = [rng.randint(2, 3) for _ in range(nb)]
    names = rng.sample(['alpha', 'beta', 'gamma', 'delta', 'x', 'yy', 'z1', 'l', 'r'], nb + 4)
    la, lb = names[:nb] + [names[nb], names[nb + 1]], names[:nb] + [names[nb + 2], names[nb + 3]]
    rng.shuffle(la)
    lb2 = list(lb)
    rng.shuffle(lb2)
    dims = {x: bd[i] if i < nb else rng.randint(2, 3) for i, x in enumerate(names)}
    s1, s2 = rng.randrange(1 << 30), rng.randrange(1 << 30)

    def two():
        a = ref.mk(dict(labels=la, dims=[dims[x] for x in la], seed=s1, cplx=False))
        b = ref.mk(dict(labels=lb2, dims=[dims[x] for x in lb2], seed=s2, cplx=False))
        for x in names[:nb]:
            ctl.link.makeLink(a.getLeg(x), b.getLeg(x))
        return a, b
    out = []
    a, b = two()
    out.append(ctl.contract.contractTwoTensors(a, b))
    a, b = two()
    out.append([[g.name for g in x.legs] for x in ctl.contract.shareBonds(a, b)])
    for chi in (None, 2):
        a, b = two()
        a, b = ctl.contract.merge(a, b, chi=chi, renameWarning=False) if chi is not None else ctl.link.mergeLink(a, b)
        out.append([labels_of([a, b]), ctl.contract.contractTwoTensors(a, b)])
    a, b = two()
    r = ctl.Schimdt.SchimdtDecomposition(a, b, chi=3)
    out.append([labels_of([r[0]]), labels_of([r[2]]), r[1].a, [g.dim for g in r[0].legs]])
    return out


def p_mps(rng):
    k = rng.random()
    if k < 0.5:
        from .scen import c13
        while True:
            net = ref.gen_net(rng, nmin=2, nmax=5, maxdim=2, diag=0.1, cplx=0.0, connected=1.0, extra=0.5, openp=0.5, maxlegs=4, limit=500)
            if ref.is_connected(net):
                break
        ts = ref.build(net)
        seq = c13.random_order(rng, net)
        r = ctl.MPS.contractWithMPS(ts, chi=rng.choice([2, 16]), seq=seq)
        # values of a truncated result depend on it, shapes and labels must not
        return [[g.name for g in r.legs], [g.dim for g in r.legs], np.linalg.norm(to_np(r.a))]
    n = rng.randint(2, 4)
    rs = np.random.RandomState(rng.randrange(1 << 30))
    two = []
    for m in range(2):
        ts = []
        for i in range(n):
            labels = ['o'] + (['l'] if i else []) + (['r'] if i < n - 1 else [])
            ts.append(ctl.Tensor(data=ref.host(rs.uniform(-1, 1, size=[2] * len(labels))), labels=labels))
        for i in range(n - 1):
            ctl.link.makeLink('r', 'l', ts[i], ts[i + 1])
        two.append(ctl.MPS.FreeBoundaryMPS(ts, chi=rng.choice([2, 8])))
    free = rng.randint(1, n - 1)
    for i in rng.sample(range(n), free):
        ctl.link.makeLink('o', 'o', two[0]._tensors[i], two[1]._tensors[rng.choice([j for j in range(n) if two[1]._tensors[j].getLeg('o').bond is None])])
    r = ctl.MPS.contractMPS(two[0], two[1])
    return [[labels_of(r._tensors)], [np.linalg.norm(to_np(ref.einsum_value(r._tensors)[1]))], r.canonicalInfo if hasattr(r, 'canonicalInfo') else None]


def p_rg(rng):
    rs = np.random.RandomState(rng.randrange(1 << 30))
    k = rng.choice(['hotrg', 'trg', 'tri', 'ctmrg'])
    if k == 'tri':
        h = ctl.TRG.TriangleTRG(rng.uniform(0.3, 1.5), chi=rng.choice([2, 4, 6]))
        for _ in range(2):
            h.iterate()
        return [k, h.errors, h.logZDensity(), h.a.shape]
    a = rs.uniform(0.2, 1.2, size=(2, 2, 2, 2))
    labels = rng.sample('uldr', 4)
    if k == 'ctmrg':
        a = a + np.transpose(a, (2, 1, 0, 3))
        a = a + np.transpose(a, (0, 3, 2, 1))
    t = ctl.Tensor(data=ref.host(np.transpose(a, ['uldr'.index(x) for x in labels])), labels=labels, degreeOfFreedom=2)
    if k == 'hotrg':
        h = ctl.HOTRG.HOTRG(t, chiH=rng.choice([2, 3, 4]))
        for _ in range(3):
            h.iterate()
        return [k, h.a.shape, h.errors, h.logZDensity(), sorted(h.a.labels)]
    if k == 'trg':
        h = ctl.TRG.SquareTRG(t, chi=rng.choice([2, 3, 4]))
        for _ in range(3):
            h.iterate()
        return [k, h.a.shape, h.errors, h.logZDensity(), h.a.labels]
    h = ctl.CTMRG.CTMRG(t, chi=rng.choice([2, 4]))
    return [k, [h.getZ(L) for L in (2, 3, 4, 1)], h.errors]


def p_graph(rng):
    g = ctl.graph.UndirectedGraph(rng.randint(2, 6))
    n = g.n
    for _ in range(rng.randint(1, 9)):
        i, j = rng.randrange(n), rng.randrange(n)
        if i != j:
            g.addEdge(i, j, weight=round(rng.uniform(0.1, 1.0), 3))
    for i in range(n):
        if not g.v[i].edges:
            g.addEdge(i, (i + 1) % n, weight=0.5)
    out = [[[v.index for v in e.vertices] + [e.weight] for e in g.getEdges()]]
    ts = ctl.Ising.IsingTNFromUndirectedGraph(g)
    out.append(labels_of(ts))
    out.append(ctl.optimalContract.generateGreedySequence(ts))
    out.append(ctl.optimalContract.contractWithSequence(ts, seq=ctl.optimalContract.generateGreedySequence(ts), outProductWarning=False))
    out.append(ctl.Ising.exactZFromGraphIsing(g))
    return out


def p_lattice(rng):
    gf = ctl.graphFuncs
    k = rng.choice(['squareLatticePBC', 'squareLatticeFBC', 'doubleSquareLatticeFBC', 'completeGraph'])
    n = rng.randint(2, 3)
    g = gf.completeGraph(n + 1, weight=0.5) if k == 'completeGraph' else getattr(gf, k)(n, weight=0.5) if k != 'doubleSquareLatticeFBC' else gf.doubleSquareLatticeFBC(2, weight=(0.3, 0.5))
    ts = ctl.Ising.IsingTNFromUndirectedGraph(g)
    return [k, [[v.index for v in e.vertices] for e in g.getEdges()], labels_of(ts), ctl.optimalContract.generateGreedySequence(ts)]


WORDS = ['a', 'b', 'c', 'alpha', 'beta', 'gamma', 'l', 'r', 'u', 'd', 'x1', 'x2', 'spin', 'bond', 'o']


def p_lists(rng):
    F = ctl.funcs
    if rng.random() < 0.7:
        x, y = rng.sample(WORDS, rng.randint(1, 8)), rng.sample(WORDS, rng.randint(1, 8))
    else:
        x, y = [(rng.choice(WORDS), i) for i in range(4)], [(rng.choice(WORDS), i) for i in range(4)]
    common = [z for z in x if z in y]
    dup = x + rng.sample(x, min(2, len(x)))
    out = [F.commonElements(x, y), F.commonElements(dup, y), F.compareLists(x, y)]
    out.append(F.listSymmetricDifference(x, y))
    out.append(F.listDifference(x, common))
    out.append(F.deleteAllInUsed(x, common))
    out.append(F.tupleRemoveByIndex(tuple(x), rng.sample(range(len(x)), rng.randint(0, len(x)))))
    out.append(F.combineName([str(w) for w in x]))
    return out


def p_text(rng):
    tg = ctl.tensorGraph
    low = rng.sample('abcdefghij', 6)
    n = rng.randint(2, 4)
    s = ''
    used = {}
    for i in range(n):
        s += 'ABCD'[i]
        for x in rng.sample(low, rng.randint(1, 4)):
            if used.get(x, 0) < 2:
                used[x] = used.get(x, 0) + 1
                s += x
    if not all(part for part in s.replace('A', ' ').replace('B', ' ').replace('C', ' ').replace('D', ' ').split(' ')[1:]):
        return [s]
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            ts = tg.createTensorListFromText(s)
        except Exception as e:      # the notation wants at least one leg per tensor
            return [s, type(e).__name__]
    return [s, labels_of(ts)]


def p_names(rng):
    s = ctl.stringSet.StringSet(3) if rng.random() < 0.5 else ctl.stringSet.StringSet()
    st = random.getstate()
    random.seed(rng.randrange(1 << 30))
    np.random.seed(rng.randrange(1 << 30))
    try:
        out = [s.newString() for _ in range(6)]
    finally:
        random.setstate(st)
    return out


def p_tensor(rng):
    """One tensor: conversions and decompositions."""
    k = rng.randint(2, 4)
    labels = rng.sample(WORDS, k)
    t = ref.mk(dict(labels=labels, dims=[rng.randint(2, 3) for _ in labels], seed=rng.randrange(1 << 30)))
    cut = rng.randint(1, k - 1)
    p = rng.sample(labels, k)
    rows, cols = p[:cut], p[cut:]
    out = [t.toMatrix(rows=rows, cols=cols), t.toMatrix(rows=rows, cols=None), t.toMatrix(rows=None, cols=cols), t.toVector(), t.copy()]
    r = ctl.tensorFunc.tensorSVDDecomposition(t, rows=rows, cols=cols, chi=3)
    out.append([labels_of([r['u'], r['s'], r['v']]), r["s"].a])
    t2 = t.copy()
    t2.outProduct(rows, 'new')
    out.append(t2)
    return out


def p_arrays(rng):
    """Array helpers."""
    F = ctl.funcs
    n, m = rng.randint(2, 3), rng.randint(2, 3)
    cp = rng.random() < 0.4

    def arr(*shape, **k):
        return ref.host(ref.rnd(rng.randrange(1 << 30), shape, k.get('cplx', cp)))
    a, b, v = arr(n, m), arr(n, m), arr(m)
    s = ref.host(np.abs(ref.rnd(rng.randrange(1 << 30), (4,))) + 0.1)
    q = arr(n, n)
    out = [F.transposeConjugate(a), F.aDaggerAProduct(a), F.aADaggerProduct(a), F.matDiffError(a, b), F.rightDiagonalProduct(a, v),
           F.leftDiagonalProduct(arr(n, m), arr(n)), F.diagonalNDTensor(v, rng.randint(1, 3)), F.ndEye(rng.randint(1, 3), n), F.normalizeInfinity(a),
           F.getCutoff(s, 0.5), F.partialInverse(s, rng.randint(0, 4)), F.nonZeroElementN(s, 0.5), F.sumOnAxis(a, 1), F.sumOnAxis(a, 0, arr(n)),
           F.identityError(q), F.checkIdentity(q), F.symmetricError(q), F.projectorError(a), F.diagError(q), F.floatArrayEqual(a, b), F.floatArrayEqual(a, a)]
    out.append(F.getValidValues([0.5, 1e12, 2.0]))
    out += [F.getDiffError(a, b), F.triangleWeight(2, 0.3)]
    h = arr(n * m, n * m, cplx=False)
    p, err = ctl.linalg.solveEnv(h @ h.T, rng.randint(1, n * m))
    out += [p.shape, abs(err) if err > 1e-9 else 0.0, F.aDaggerAProduct(p)]
    u, sv, vh, err = ctl.decompose.SVDDecomposition(arr(n, m), chi=2, returnSV=True)
    out += [u.shape, sv, vh.shape, err]
    u, vh, err = ctl.decompose.SVDDecomposition(arr(n, m), chi=rng.choice([1, 4]))
    out += [u @ F.transposeConjugate(vh), err]
    return out


def p_ising(rng):
    I = ctl.Ising
    be = rng.uniform(0.1, 0.7)
    out = [I.squareIsingTensor(be), I.squareIsingTensor(be, obs='M'), I.squareIsingTensor(be, obs='E', symmetryBroken=0.1), I.plaquetteIsingTensor(be),
           I.plaquetteIsingTensor((be, 0.3), diamondForm=True), I.infiniteIsingExactM(rng.uniform(1.0, 3.0)), I.IsingEdgeMatrix(be),
           I.IsingSiteTensor(be, dim=3), I.IsingSiteTensor([be, 0.2], dim=2, labels=['x', 'y'])]
    return out


def p_exp(rng):
    E = ctl.contractExp
    a = ref.mk(dict(labels=['u', 'l', 'd', 'r'], dims=[2, 3, 2, 3], seed=rng.randrange(1 << 30), cplx=rng.random() < 0.3))
    t = [ref.mk(dict(labels=['1', '2', '3'], dims=[2, 2, 2], seed=rng.randrange(1 << 30))) for _ in range(2)]
    out = [E.squareTrace(a), E.triangleTensorTrace(t[0], t[1]), E.selfTrace(ref.mk(dict(labels=['a', 'b', 'c'], dims=[3, 3, 3], seed=rng.randrange(1 << 30))))]
    out.append(E.squareContractFTN().contract(E.makeSquareTensorDict(a)))
    out.append(E.triangleContractFTN().contract(E.makeTriangleTensorDict(t[0])))
    d = ctl.DiagonalTensor(data=ref.host(ref.rnd(rng.randrange(1 << 30), (3,))), labels=['a', 'b', 'c'], shape=(3, 3, 3))
    out += [d, d.copy(), d.norm(), d.trace(), d.toVector()]
    d.sumOutLegByLabel('b')
    out.append(d)
    d.sumOutLegByLabel(['a', 'c'])
    out.append(d)
    x = ref.mk(dict(labels=['a', 'b', 'c'], dims=[2, 3, 2], seed=rng.randrange(1 << 30)))
    out += [x.norm(), ctl.tensorFunc.isIsometry(x, ['b'])]
    x.sumOutLegByLabel('b', weights=ref.host(ref.rnd(5, (3,))))
    return out + [x]


def p_random(rng):
    """Data the library draws itself: only who made it and its shape can be compared."""
    sh = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
    ts = [ctl.Tensor(shape=tuple(sh)), ctl.Tensor(shape=tuple(sh), dtype=np.dtype('complex128')), ctl.DiagonalTensor(shape=(2, 2))]
    x = [t.a for t in ts] + [ctl.funcs.randomArray(tuple(sh))]
    x += [t.a for t in ctl.MPS.makeRandomMPS(3, 2, 2, chi=4)._tensors]
    for y in x:
        if WATCH is not None:
            WATCH(y)
    return [list(y.shape) for y in x] + [y.dtype.kind for y in x]


def p_diag(rng):
    """Diagonal tensors: creation, views, sums, contractions."""
    D = ctl.DiagonalTensor
    k, n = rng.randint(1, 4), rng.randint(1, 3)
    cp = rng.random() < 0.3
    lab = rng.sample(WORDS, 4)

    def one(labels):
        a = ref.rnd(rng.randrange(1 << 30), (n,), cp)
        if rng.random() < 0.4:
            full = ref.rnd(rng.randrange(1 << 30), (n,) * len(labels), cp)
            full[np.diag_indices(n, len(labels))] = a
            return D(data=ref.host(full), labels=labels)
        return D(data=ref.host(a), labels=labels, shape=(n,) * len(labels))
    out = [D(shape=(n,) * k, labels=lab[:k]), D(shape=()), D(data=ref.host(ref.rnd(rng.randrange(1 << 30), (), cp)))]
    out.append(out[-1].single())
    d = one(lab[:k])
    cut = rng.randint(0, k)
    p = rng.sample(lab[:k], k)
    out += [d, d.toMatrix(rows=p[:cut] or None, cols=p[cut:] or None), d.toTensor(p), d.toVector(), d.copy(), d.toTensorLike(), d.trace(), d.norm()]
    x, y = one(lab[:k]), one(lab[:2])
    m = rng.randint(1, min(k, 2))
    for j in range(m):
        ctl.link.makeLink(x.legs[j], y.legs[j])
    y.renameLabel(lab[1], 'other')
    y.renameLabel(lab[0], 'another')
    out.append(x @ y)
    x, t = one(lab[:k]), ref.mk(dict(labels=['f', 'g', 'h'], dims=[n, n, rng.randint(1, 3)], seed=rng.randrange(1 << 30), cplx=cp))
    for j in range(rng.randint(1, min(k, 2))):
        ctl.link.makeLink(x.legs[j], t.legs[j])
    out.append(x @ t if rng.random() < 0.5 else t @ x)
    out.append(ctl.contract.contractTwoTensors(one(lab[:2]), one(lab[2:]), outProductWarning=False))
    c = [D(data=ref.host(ref.rnd(rng.randrange(1 << 30), (), cp))) for _ in range(2)]
    out.append(ctl.contract.contractTwoTensors(c[0], c[1], outProductWarning=False))
    out.append(ctl.contract.contractTwoTensors(c[0], one(lab[:2]), outProductWarning=False))
    order = rng.sample(lab[:k], k)
    for x in order:
        d.sumOutLegByLabel(x, weights=ref.host(ref.rnd(rng.randrange(1 << 30), (n,), cp)) if rng.random() < 0.5 else None)
        out.append(d.copy())
    return out


def p_load(rng):
    """A matrix read from a text file."""
    import os
    import tempfile
    with tempfile.TemporaryDirectory(prefix='ctlsim') as p:
        f = os.path.join(p, 'matrix.txt')
        n, m = rng.randint(1, 4), rng.randint(1, 4)
        with open(f, 'w') as h:
            for _ in range(n):
                h.write(' '.join(repr(rng.uniform(-2, 2)) for _ in range(m)) + '\n')
        a = ctl.funcs.loadData(f)
    t = ctl.Tensor(data=a, labels=['row', 'col'])
    return [a, t, t.toMatrix(rows=['col'], cols=['row'])]


PROGS = dict(diag=p_diag, load=p_load, plan=p_plan, contract=p_contract, ftn=p_ftn, edit=p_edit, pair=p_pair, mps=p_mps, rg=p_rg, graph=p_graph, lattice=p_lattice,
             lists=p_lists, text=p_text, arrays=p_arrays, ising=p_ising, exp=p_exp, random=p_random, names=p_names, tensor=p_tensor)
WEIGHTS = dict(diag=2, load=1, plan=4, contract=3, ftn=3, edit=3, pair=3, mps=2, rg=1, graph=2, lattice=1, lists=3, text=1, arrays=1, ising=1, exp=1, random=1, names=1, tensor=2)


def run(kind, seed):
    try:
        return see(PROGS[kind](random.Random('prog/%s/%s' % (kind, seed))))
    except Exception as e:      # the same program must fail the same way
        return ['raised', type(e).__name__, '' if isinstance(e, AssertionError) else str(e)[:200]]


def differ(a, b, path=''):
    """Where two results differ: floats by value, everything else exactly."""
    if isinstance(a, float) and isinstance(b, float):
        return None if a == b or a != a and b != b else '%s: %r and %r' % (path, a, b)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == 3 and len(b) == 3 and a[0] == '#f' == b[0] and a[1] == b[1]:
            x, y = np.array(a[2]), np.array(b[2])
            ok = np.isclose(x, y, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(x[np.isfinite(x)]), initial=0.0)), equal_nan=True)
            return None if np.all(ok) else '%s: values differ by %.3g' % (path, float(np.max(np.abs(x - y)[~ok])))
        if len(a) != len(b):
            return '%s: %s entries and %s' % (path, len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '%s.%d' % (path, k))
            if d:
                return d
        return None
    return None if type(a) is type(b) and a == b else '%s: %r and %r' % (path, a, b)


def child():
    """Runs programs in this interpreter (its own string-hash seed) and prints what they returned."""
    import json
    import os
    import sys
    import warnings
    from . import core, xp
    job = json.load(sys.stdin)
    fd = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    warnings.simplefilter('ignore')
    out = []
    for kind, seed in job['progs']:
        out.append(execute(kind, seed, job['mult'], job['add']))
    with os.fdopen(fd, 'w') as f:
        json.dump(out, f)


def execute(kind, seed, mult, add):
    import warnings
    np.random.seed(seed % (2 ** 32))
    random.seed(seed)
    ctl.set_hash(mult, add)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return run(kind, seed)


if __name__ == '__main__':
    child()
