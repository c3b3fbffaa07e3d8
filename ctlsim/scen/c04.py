"""C04: non-in-place operations stopped at any instant leave everything they were given intact."""
import random

import numpy as np

from .. import ctl, ftnlib, ref
from ..core import Violation, to_np
from .c01 import desc_tensor, links_of, equal, show

RUNS = {'quick': 4000, 'thorough': 60000}
BATCH = 25
RULE = 'Random linked network and 2-8 non-in-place calls on it, most of them stopped by a failing backend call, an interrupt before a random executed line, or a warning turned into an error, then retried. Non-trivial: at least one fault took effect.'
STATES = 'hash of (operation, fault kind, place of the fault)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy, warnings filter, interrupts at executed lines'

WHOLE = ['contractTensorList', 'contractWithSequence', 'contractAndCost', 'greedyContract', 'optimal', 'optimal_bf', 'greedy', 'graph', 'bfContract']
SUB = ['copyList', 'copyLike', 'subContract', 'subCost']
ONE = ['copy', 'like', 'copyN', 'matrix', 'vector', 'trace', 'norm', 'isIsometry', 'svd', 'selfTrace', 'repr', 'single']
FTN = ['ftn']
EXP = ['squareTrace', 'triangleTrace']


def gen(rng, tier, i):
    net = ref.gen_net(rng, 1 if rng.random() < 0.1 else 2, 5 if tier == 'thorough' else 4, limit=20000)
    n = len(net['tensors'])
    ops = []
    d = ftnlib.gen_desc(rng, nmax=3)
    for _ in range(rng.randint(2, 8)):
        k = rng.choice(rng.choice([WHOLE, WHOLE, SUB, ONE, ONE, FTN, EXP]))
        op = dict(op=k, s=rng.randrange(1 << 30), warn=rng.random() < 0.5)
        if k in WHOLE:
            op['sub'] = list(range(n))
            if rng.random() < 0.3:
                rng.shuffle(op['sub'])
        else:
            op['sub'] = rng.sample(range(n), rng.randint(1, n))
        if k in ('contractWithSequence', 'contractAndCost', 'subContract', 'subCost'):
            op['seq'] = ref.rand_seq(rng, len(op['sub'])) if (k in SUB or rng.random() < 0.5) else None
        if rng.random() < 0.75:
            f = rng.choice(['oom', 'device', 'kbd', 'linalg', 'line', 'line', 'line', 'warn'])
            op['fault'] = dict(kind=f) if f == 'warn' else dict(kind=f, frac=rng.random())
        ops.append(op)
    return dict(net=net, desc=d, ops=ops)


def prepare(op, ts, d):
    """The arguments of the call: (function, containers passed in, tensors passed in)."""
    oc = ctl.optimalContract
    rng = random.Random('c04/%s' % op['s'])
    k = op['op']
    l = [ts[i] for i in op['sub']]
    seq = [tuple(x) for x in op['seq']] if op.get('seq') is not None else None
    w = op.get('warn', False)
    if k == 'contractTensorList':
        return (lambda: desc_tensor(oc.contractTensorList(l, outProductWarning=w))), [l], l
    if k in ('contractWithSequence', 'subContract'):
        return (lambda: desc_tensor(oc.contractWithSequence(l, seq=seq, outProductWarning=w))), [l, seq], l
    if k in ('contractAndCost', 'subCost'):
        def f():
            t, c = oc.contractAndCostWithSequence(l, seq=seq, outProductWarning=w)
            return [desc_tensor(t), float(c)]
        return f, [l, seq], l
    if k in ('greedyContract', 'bfContract'):
        def f():
            t, c = oc.contractAndCostWithSequence(l, greedy=(k == 'greedyContract'), bf=(k == 'bfContract'), typicalDim=None, outProductWarning=w)
            return [desc_tensor(t), float(c)]
        return f, [l], l
    if k == 'optimal':
        return (lambda: [list(x) for x in oc.generateOptimalSequence(l, typicalDim=None)]), [l], l
    if k == 'optimal_bf':
        return (lambda: [list(x) for x in oc.generateOptimalSequence(l, bf=True, typicalDim=10)]), [l], l
    if k == 'greedy':
        return (lambda: [list(x) for x in oc.generateGreedySequence(l)]), [l], l
    if k == 'graph':
        return (lambda: [[e.weight for e in v.edges] for v in oc.makeTensorGraph(l).v]), [l], l
    if k in ('copyList', 'copyLike'):
        def f():
            c = oc.copyTensorList(l, tensorLikeFlag=(k == 'copyLike'))
            return [[desc_tensor(t) for t in c], links_of(c)]
        return f, [l], l
    if k == 'ftn':
        inp = ftnlib.gen_input(rng, d)
        own = ftnlib.tensors(d, inp)
        net = ftnlib.build_ftn(d)
        td = ctl.TensorDict(dict(own))

        def f():
            return desc_tensor(net.contract(td, removeTensorTag=d['removeTag']))
        return f, [td.tensors, net.tensorNames, net.links, net.changeNameBefore, net.changeNameAfter, net.outProductAfter], list(own.values())
    if k in EXP:
        dd = rng.randint(2, 3)
        if k == 'squareTrace':
            own = [ref.mk(dict(labels=['u', 'l', 'd', 'r'], dims=[dd, 2, dd, 2], seed=op['s'] % 1000, cplx=rng.random() < 0.3))]
            return (lambda: complex(ctl.contractExp.squareTrace(own[0]))), [own], own
        own = [ref.mk(dict(labels=['1', '2', '3'], dims=[dd, 2, 3], seed=op['s'] % 1000 + j)) for j in range(2)]
        return (lambda: desc_tensor(ctl.contractExp.triangleTensorTrace(own[0], own[1]))), [own], own
    t = l[0]
    labels = [g.name for g in t.legs]
    uniq = len(set(labels)) == len(labels)
    cut = rng.randint(1, max(1, len(labels) - 1))
    perm = list(labels)
    rng.shuffle(perm)
    if k == 'copy':
        return (lambda: desc_tensor(t.copy())), [], l
    if k == 'like':
        return (lambda: desc_tensor(t.toTensorLike())), [], l
    if k == 'copyN':
        return (lambda: [desc_tensor(x) for x in t.copyN(2)]), [], l
    if k == 'norm':
        return (lambda: float(t.norm())), [], l
    if k == 'repr':
        return (lambda: [str(t), repr(t), str(t.legs)]), [], l
    if k == 'vector':
        return (lambda: np.array(to_np(t.toVector()))), [], l
    if k == 'single':
        return (lambda: complex(t.single()) if not labels else None), [], l
    if k == 'selfTrace':
        if not labels:
            return None
        return (lambda: desc_tensor(ctl.contractExp.selfTrace(t))), [], l
    if not uniq or len(labels) < 1:
        return None
    rows, cols = perm[:cut], perm[cut:]
    if k == 'matrix':
        if t.diagonalFlag:
            return None
        how = rng.randrange(3)
        if how == 0 or not cols:
            return (lambda: np.array(to_np(t.toMatrix(rows=rows, cols=None)))), [rows], l
        if how == 1:
            return (lambda: np.array(to_np(t.toMatrix(rows=rows, cols=cols)))), [rows, cols], l
        lr, lc = [t.getLeg(x) for x in rows], [t.getLeg(x) for x in cols]
        return (lambda: np.array(to_np(t.toMatrix(rows=lr, cols=lc)))), [lr, lc], l
    if k == 'trace':
        if t.diagonalFlag:
            return (lambda: complex(t.trace())), [], l
        if not cols:
            return None
        a = np.prod([t.getLeg(x).dim for x in rows])
        b = np.prod([t.getLeg(x).dim for x in cols])
        if a != b:
            return None
        return (lambda: complex(t.trace(rows=rows, cols=cols))), [rows, cols], l
    if t.diagonalFlag or not cols:
        return None
    if k == 'isIsometry':
        return (lambda: bool(ctl.tensorFunc.isIsometry(t, rows))), [rows], l
    if k == 'svd':
        def f():
            r = ctl.tensorFunc.tensorSVDDecomposition(t, rows=rows, cols=cols, chi=16)
            m = to_np(r['u'].a) @ np.diag(to_np(r['s'].a)) @ to_np(r['v'].a)
            return [np.array(to_np(r['s'].a)), np.array(m)]
        return f, [rows, cols], l
    raise AssertionError(k)


def snap_containers(cs):
    return [(c, dict(c) if isinstance(c, dict) else list(c)) for c in cs if c is not None]


def check_containers(snaps, what):
    for c, old in snaps:
        if isinstance(c, dict):
            ok = list(c) == list(old) and all(c[k] is old[k] for k in c)
        else:
            ok = len(c) == len(old) and all(a is b or (not hasattr(a, 'legs') and not hasattr(a, 'bond') and a == b) for a, b in zip(c, old))
        if not ok:
            raise Violation('container-modified', '%s: a list or dictionary passed in was changed' % what)


def run(spec, sim):
    net = spec['net']
    d = spec['desc']
    ts = ref.build(net)
    snap = ref.Snap(ts)
    lab, arr = ref.einsum_value(ts)
    names = [g.name for g in lab]
    truth = ref.by_label(names, arr) if len(set(names)) == len(names) else None
    for oi, op in enumerate(spec['ops']):
        what = 'step %d (%s)' % (oi, op['op'])
        p = prepare(op, ref.build(net), d)
        if p is None:
            continue
        want = sim.expect_ok(sim.call(p[0]), '%s on fresh tensors' % what).value
        if truth is not None and op['op'] in WHOLE:
            t = want if op['op'] in ('contractTensorList', 'contractWithSequence') else (want[0] if op['op'] in ('contractAndCost', 'greedyContract', 'bfContract') else None)
            if t is not None:
                check_truth(t, truth, what)
        fault = op.get('fault')
        fn, cont, mine = prepare(op, ts, d)
        own = ref.Snap(mine)
        cs = snap_containers(cont)
        if fault is not None:
            q = prepare(op, ref.build(net), d)
            o = sim.call(fn, fault, q[0])
            how = '%s stopped by %s at %s' % (what, fault['kind'], sim.where) if o.fired else what
            sim.note(how, o.kind)
            sim.state(op['op'], fault['kind'], sim.where, o.kind)
            sim.expect_ok(o, how)
            snap.check(how)
            own.check(how)
            check_containers(cs, how)
            if o.ok and not equal(o.value, want):
                raise Violation('wrong-result', '%s returned %s, expected %s' % (how, show(o.value)[:150], show(want)[:150]))
        o = sim.expect_ok(sim.call(fn), '%s (retry)' % what)
        sim.note(what, show(o.value)[:100])
        if not equal(o.value, want):
            raise Violation('wrong-result', '%s returned %s, expected %s' % (what, show(o.value)[:150], show(want)[:150]))
        snap.check(what)
        own.check(what)
        check_containers(cs, what)
    ref.check_struct(ts, 'at the end')


def check_truth(d, truth, what):
    _, names, dims, diag, like, a = d
    if diag:
        n = len(names)
        if n:
            x = np.zeros((dims[0],) * n, dtype=a.dtype)
            idx = np.arange(dims[0])
            x[(idx,) * n] = a
            a = x
        else:
            a = a.reshape(())
    ref.same_value(ref.by_label(names, a), truth, what)
