"""C01: threads using overlapping sets of the same linked tensors through the non-in-place interface."""
from .. import ctl, ref, sched
from ..core import Violation, describe, to_np
import numpy as np

RUNS = {'quick': 2600, 'thorough': 40000}
BATCH = 20
RULE = 'Random linked network shared by 2-4 threads, each issuing 1-3 non-in-place calls; thread switches before any CTL line or backend call; injected failures in some calls. Non-trivial: at least one pre-emptive switch.'
STATES = 'hash of (task order of switches at operation boundaries, outcome of each call)'
REAL = 'all CTL code, real Python threads (one released at a time), numpy kernels'
STUBS = 'thread scheduler, threading.Lock/RLock, backend module proxy'

WHOLE = ['contractTensorList', 'contractWithSequence', 'contractAndCost', 'optimal', 'optimal_bf', 'optimal_typ', 'greedy', 'graph', 'greedyContract', 'copyList', 'copyLike']
SUB = ['subContract', 'copyList', 'copyLike', 'subCost', 'norm', 'copy', 'matrix', 'like', 'isIsometry', 'svd', 'trace', 'vector', 'ask']


def gen_op(rng, net):
    n = len(net['tensors'])
    if rng.random() < 0.6:
        k = rng.choice(WHOLE)
        sub = list(range(n))
        if rng.random() < 0.3:
            rng.shuffle(sub)
    else:
        k = rng.choice(SUB)
        sub = rng.sample(range(n), rng.randint(1, n))
    op = dict(op=k, sub=sub)
    if k in ('contractWithSequence', 'contractAndCost', 'subContract', 'subCost'):
        op['seq'] = ref.rand_seq(rng, len(sub)) if (k.startswith('sub') or rng.random() < 0.5) else None
    if k in ('matrix', 'isIsometry', 'svd', 'trace', 'vector', 'ask'):
        op['k'] = rng.randint(0, 3)
    if rng.random() < 0.12:
        op['fault'] = dict(kind=rng.choice(['oom', 'device', 'linalg']), at=rng.randrange(0, 12))
    return op


def gen(rng, tier, i):
    n2 = 6 if tier == 'thorough' else 5
    net = ref.gen_net(rng, 2, n2, connected=1.0, openp=0.4, limit=20000)
    nt = rng.choice([2, 2, 2, 3, 4])
    tasks = []
    for _ in range(nt):
        tasks.append(dict(ops=[gen_op(rng, net) for _ in range(rng.randint(1, 3))]))
    if rng.random() < 0.4:       # all threads hammer the same call
        op = gen_op(rng, net)
        op.pop('fault', None)
        for t in tasks:
            t['ops'][0] = dict(op)
    return dict(net=net, tasks=tasks, sched=sched.random_conf(rng, opcode=0.08))


def desc_tensor(t):
    return ['T', [g.name for g in t.legs], [g.dim for g in t.legs], bool(t.diagonalFlag), bool(t.tensorLikeFlag),
            None if t.tensorLikeFlag else np.array(to_np(t.a))]


def links_of(ts):
    idx = {id(g): (i, j) for i, t in enumerate(ts) for j, g in enumerate(t.legs)}
    out = []
    for i, t in enumerate(ts):
        for j, g in enumerate(t.legs):
            o = ref.other(g)
            out.append(None if o is None else idx.get(id(o), 'outside'))
    return out


def do(op, ts):
    oc = ctl.optimalContract
    l = [ts[i] for i in op['sub']]
    seq = op.get('seq')
    if seq is not None:
        seq = [tuple(x) for x in seq]
    k = op['op']
    if k == 'contractTensorList':
        return desc_tensor(oc.contractTensorList(l, outProductWarning=False))
    if k in ('contractWithSequence', 'subContract'):
        return desc_tensor(oc.contractWithSequence(l, seq=seq, outProductWarning=False))
    if k in ('contractAndCost', 'subCost'):
        t, c = oc.contractAndCostWithSequence(l, seq=seq, outProductWarning=False)
        return [desc_tensor(t), float(c)]
    if k == 'greedyContract':
        t, c = oc.contractAndCostWithSequence(l, greedy=True, outProductWarning=False)
        return [desc_tensor(t), float(c)]
    if k == 'optimal':
        return [list(x) for x in oc.generateOptimalSequence(l, typicalDim=None)]
    if k == 'optimal_typ':
        return [list(x) for x in oc.generateOptimalSequence(l)]
    if k == 'optimal_bf':
        return [list(x) for x in oc.generateOptimalSequence(l, bf=True, typicalDim=None)]
    if k == 'greedy':
        return [list(x) for x in oc.generateGreedySequence(l)]
    if k == 'graph':
        g = oc.makeTensorGraph(l)
        return [[e.weight for e in v.edges] for v in g.v]
    if k in ('copyList', 'copyLike'):
        c = oc.copyTensorList(l, tensorLikeFlag=(k == 'copyLike'))
        return [[desc_tensor(t) for t in c], links_of(c)]
    t = l[0]
    if k == 'norm':
        return float(t.norm())
    if k == 'copy':
        return desc_tensor(t.copy())
    if k == 'like':
        return desc_tensor(t.toTensorLike())
    labels = [g.name for g in t.legs]
    cut = op.get('k', 0) % (len(labels) + 1)
    if len(set(labels)) != len(labels):
        return None
    if k == 'vector':
        return np.array(to_np(t.toVector()))
    if k == 'ask':
        lab = labels[::-1] if op.get('k', 0) % 2 else labels
        return [list(t.labels), list(t.shape), [t.indexOfLabel(x) for x in lab], [t.indexOfLabel(x, backward=True) for x in lab],
                list(t.getLabelIndices(lab, backward=True)), list(t.shapeOfLabels(lab)), [g.name for g in t.complementLegs(t.legs[:cut])],
                [g.name for g in t.getLegsByLabel(lab)], bool(t.labelsInTensor(lab + ['nobody'])), int(t.totalSize), str(t.typeName), str(t)]
    if k == 'trace':
        dims = [g.dim for g in t.legs]
        if t.diagonalFlag or not (0 < cut < len(labels)) or np.prod(dims[:cut]) != np.prod(dims[cut:]):
            return None
        return float(abs(t.trace(rows=labels[:cut])))
    if k == 'matrix':
        if t.diagonalFlag:
            return float(abs(t.trace()))
        rows = t.legs[:cut]
        return np.array(to_np(t.toMatrix(rows=rows, cols=None) if rows else t.toMatrix(rows=None, cols=t.legs)))
    if k == 'isIsometry':
        if t.diagonalFlag or not cut:
            return None
        return bool(ctl.tensorFunc.isIsometry(t, labels[:cut]))
    if k == 'svd':
        if t.diagonalFlag or not (0 < cut < len(labels)):
            return None
        d = ctl.tensorFunc.tensorSVDDecomposition(t, rows=labels[:cut], cols=labels[cut:])
        return np.array(to_np(d['s'].a))
    raise AssertionError(k)


def equal(a, b, tol=1e-9):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return ref.close(a, b, tol)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(1.0, abs(b)) or (a != a and b != b)
    return a == b


def show(x):
    if isinstance(x, np.ndarray):
        from ..core import sig
        return sig(x)
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(show(y) for y in x) + ']'
    if isinstance(x, float):
        return '%.6g' % x
    return str(x)


def run(spec, sim):
    net = spec['net']
    solo = []
    for ti, task in enumerate(spec['tasks']):
        row = []
        for op in task['ops']:
            out = sim.call(lambda: do(op, ref.build(net)))
            sim.expect_ok(out, '%s alone' % op['op'])
            row.append(out.value)
        solo.append(row)
    ts = ref.build(net)
    snap = ref.Snap(ts)
    truth = None
    lab, arr = ref.einsum_value(ts)
    names = [g.name for g in lab]
    if len(set(names)) == len(names):
        truth = ref.by_label(lab, arr)
    results = [[None] * len(t['ops']) for t in spec['tasks']]
    s = sched.Sched(sim, spec['sched'])

    def mk(ti):
        def body():
            for oi, op in enumerate(spec['tasks'][ti]['ops']):
                results[ti][oi] = s.op(lambda: do(op, ts), op.get('fault'))
        return body
    try:
        s.run([mk(i) for i in range(len(spec['tasks']))])
    finally:
        sim.switch_log = s.switches
    sim.note('order', s.order[:60])
    for ti, task in enumerate(spec['tasks']):
        for oi, op in enumerate(task['ops']):
            o = results[ti][oi]
            sim.note('task', ti, op['op'], op['sub'], o.kind, show(o.value))
            sim.state(op['op'], o.kind, show(o.value), s.order[:8])
            if o.kind == 'raised':
                raise Violation('exception', 'thread %d: %s on tensors %s raised %s' % (ti, op['op'], op['sub'], describe(o.exc)))
            if o.kind == 'fault':
                continue
            if not equal(o.value, solo[ti][oi]):
                raise Violation('wrong-result', 'thread %d: %s on tensors %s returned %s, alone %s' % (ti, op['op'], op['sub'], show(o.value)[:150], show(solo[ti][oi])[:150]))
            if truth is not None and op['op'] in ('contractTensorList', 'contractWithSequence', 'contractAndCost', 'greedyContract') and len(op['sub']) == len(ts):
                d = o.value if op['op'] in ('contractTensorList', 'contractWithSequence') else o.value[0]
                check_truth(d, truth, op)
    snap.check('after all threads finished')
    ref.check_struct(ts, 'after all threads finished')
    # the same calls again, serially, on the same objects
    for ti, task in enumerate(spec['tasks']):
        for oi, op in enumerate(task['ops']):
            o = sim.call(lambda: do(op, ts))
            sim.expect_ok(o, '%s after the threads' % op['op'])
            if not equal(o.value, solo[ti][oi]):
                raise Violation('wrong-result-later', 'afterwards %s on %s returned %s, alone %s' % (op['op'], op['sub'], show(o.value)[:150], show(solo[ti][oi])[:150]))
    snap.check('after serial calls')


def check_truth(d, truth, op):
    _, names, dims, diag, like, a = d
    if diag:
        n = len(names)
        if n:
            x = np.zeros((dims[0],) * n, dtype=a.dtype)
            idx = np.arange(dims[0])
            x[(idx,) * n] = a
            a = x
        else:
            a = a.reshape(())
    ref.same_value(ref.by_label(names, a), truth, op['op'])
