"""C03: clients that each use their own objects, interleaved, against each client alone in its own process."""
import copy
import os
import pickle
import random
import signal

import numpy as np

from .. import ctl, ftnlib, progs, ref, sched
from ..core import Violation, HarnessError, describe, to_np, sig
from .c01 import equal, show

RUNS = {'quick': 800, 'thorough': 6000}
BATCH = 10
RULE = '2-4 clients, each with its own objects and 2-9 steps, interleaved step by step or as threads; each client is also run alone in a fresh process. Non-trivial: steps of different clients alternate.'
STATES = 'hash of (client kind, step, outcome)'
REAL = 'all CTL code, real Python threads (one released at a time), numpy kernels'
STUBS = 'thread scheduler, threading.Lock/RLock, backend module proxy'

KINDS = ['tensors', 'tensors', 'ftn', 'ftn', 'ftn', 'built', 'built', 'graphs', 'prog', 'mps', 'hotrg', 'square', 'triangle', 'ctmrg', 'impurity']


def gen_client(rng):
    kind = rng.choice(KINDS)
    ops = []
    for _ in range(rng.randint(2, 9 if kind in ('tensors', 'ftn', 'built', 'graphs') else 5)):
        op = dict(s=rng.randrange(1 << 30))
        if rng.random() < 0.1:
            op['fault'] = dict(kind=rng.choice(['oom', 'device', 'linalg']), at=rng.randrange(0, 12))
        ops.append(op)
    return dict(kind=kind, s=rng.randrange(1 << 30), ops=ops)


def gen(rng, tier, i):
    clients = [gen_client(rng) for _ in range(rng.choice([2, 2, 3, 4]))]
    if rng.random() < 0.4:
        clients[1]['kind'] = clients[0]['kind']
        if rng.random() < 0.5:
            clients[1]['s'] = clients[0]['s']
    spec = dict(clients=clients, mode=rng.choice(['steps', 'steps', 'threads']), order=[rng.randrange(4) for _ in range(40)], sched=None)
    if spec['mode'] == 'threads':
        spec['sched'] = sched.random_conf(rng)
    return spec


class Base:
    """A client.  step(op) does one step and returns something comparable."""

    def __init__(self, s):
        self.kept = []       # (what, live container, copy of it)

    def keep(self, what, x):
        if isinstance(x, np.ndarray):
            self.kept.append((what, x, np.array(to_np(x))))
        elif isinstance(x, dict):
            self.kept.append((what, x, dict(x)))
        else:
            self.kept.append((what, x, list(x)))
        return x

    def changed(self):
        """What the client passed in earlier and no longer looks the same."""
        for what, x, old in self.kept:
            if isinstance(x, np.ndarray):
                ok = x.shape == old.shape and np.array_equal(to_np(x), old)
            elif isinstance(x, dict):
                ok = list(x) == list(old) and all(x[k] is old[k] for k in x)
            else:
                ok = len(x) == len(old) and all(a is b or (not hasattr(a, 'legs') and a == b) for a, b in zip(x, old))
            if not ok:
                return what
        return None


def desc(t):
    return ['T', [g.name for g in t.legs], [g.dim for g in t.legs], bool(t.diagonalFlag), None if t.tensorLikeFlag else np.array(to_np(t.a))]


class Tensors(Base):
    def __init__(self, s):
        super().__init__(s)
        self.ts = []
        self.n = 0

    def new(self, rng):
        k = rng.randint(1, 3)
        labels = ['%s' % c for c in rng.sample('abcdef', k)]
        d = rng.randint(2, 3)
        if rng.random() < 0.3:
            data = ref.host(ref.rnd(rng.randrange(1 << 30), (d,)))
            t = ctl.DiagonalTensor(data=self.keep('data array', data), labels=self.keep('labels list', labels), shape=self.keep('shape list', [d] * k) if rng.random() < 0.3 else tuple([d] * k))
        else:
            dims = [rng.randint(2, 3) for _ in range(k)]
            data = ref.host(ref.rnd(rng.randrange(1 << 30), tuple(dims)))
            how = rng.randrange(3)
            if how == 0:
                t = ctl.Tensor(data=self.keep('data array', data), labels=self.keep('labels list', labels))
            elif how == 1:
                t = ctl.Tensor(data=self.keep('data array', data), labels=self.keep('labels list', labels), shape=tuple(dims))
            else:
                flat = data.reshape(-1)
                t = ctl.Tensor(data=self.keep('data array', flat), labels=self.keep('labels list', labels), shape=tuple(dims))
        self.ts.append(t)
        return t

    def step(self, rng):
        if not self.ts or rng.random() < 0.35:
            return desc(self.new(rng))
        t = rng.choice(self.ts)
        k = rng.randrange(9)
        labels = [g.name for g in t.legs]
        if k == 0:
            self.n += 1
            t.renameLabel(rng.choice(labels), 'z%d' % self.n) if labels else None
            return desc(t)
        if k == 1:
            lab = list(labels)
            rng.shuffle(lab)
            t.reArrange(self.keep('labels list', lab))
            return desc(t)
        if k == 2:
            c = t.copy()
            self.ts.append(c)
            return desc(c)
        if k == 3 and len(labels) > 1:
            t.sumOutLegByLabel(self.keep('labels list', [rng.choice(labels)]))
            return desc(t)
        if k == 4 and len(labels) > 1 and not t.diagonalFlag:
            self.n += 1
            t.outProduct(self.keep('labels list', list(rng.sample(labels, 2))), 'm%d' % self.n)
            return desc(t)
        if k == 5:
            return [float(t.norm()), desc(t)]
        if k in (6, 7):
            # a private network of two copies joined over legs of equal dimension
            a, b = t.copy(), rng.choice(self.ts).copy()
            for x in a.legs:
                for y in b.legs:
                    if x.bond is None and y.bond is None and x.dim == y.dim:
                        ctl.link.makeLink(x, y)
            for i, g in enumerate(b.legs):
                g.name = 'b%d' % i
            want = ref.net_value([a, b]) if len(set(g.name for g in a.legs)) == len(a.legs) else None
            l = self.keep('tensor list', [a, b])
            r = ctl.optimalContract.contractTensorList(l) if k == 6 else a @ b
            if want is not None:
                ref.same_value(ref.t_value(r), want, 'contraction')
            return desc(r)
        return [sig(t.toTensor()) if not t.tensorLikeFlag else '', desc(t)]


class Ftn(Base):
    def __init__(self, s):
        super().__init__(s)
        self.rng = random.Random('ftn/%s' % s)
        self.nets = []

    def new(self, rng):
        d = ftnlib.gen_desc(rng, nmin=1, nmax=3)
        if rng.random() < 0.5:
            d['names'] = sorted(d['names'])
        how = rng.randrange(3)
        if how == 0:
            f = ctl.FTN(realCost=d['realCost'], typicalDim=d['typicalDim'])
            for m in d['names']:
                f.addTensor(m)
        elif how == 1:
            f = ctl.FTN(tensorNames=self.keep('names list', list(d['names'])), realCost=d['realCost'], typicalDim=d['typicalDim'])
        else:
            f = ctl.FTN(self.keep('names list', list(d['names'][:1])), realCost=d['realCost'], typicalDim=d['typicalDim'])
            for m in d['names'][1:]:
                f.addTensor(m)
        for x in d['pre']:
            f.addPreNameChange(*x)
        for x in d['links']:
            f.addLink(*x)
        for pick, new in d['outp']:
            f.addPostOutProduct(self.keep('labels list', [p if isinstance(p, str) else tuple(p) for p in pick]), new)
        for x in d['post']:
            f.addPostNameChange(*x)
        self.nets.append([d, f, None])
        return [list(f.tensorNames), f.tensorCount]

    def step(self, rng):
        if not self.nets or rng.random() < 0.3:
            return self.new(rng)
        net = rng.choice(self.nets)
        d, f, _ = net
        if rng.random() < 0.15:
            f.unlock()
            m = 'x%d' % rng.randrange(100)
            if m in d['names']:
                return None
            f.addTensor(m)
            d['names'] = list(d['names']) + [m]
            d['legs'][m] = [dict(label='k' + m, orig='k' + m)]
            return list(f.tensorNames)
        inp = ftnlib.gen_input(rng, d)
        ts = ftnlib.tensors(d, inp)
        how = rng.randrange(4)
        if how == 0:
            arg = self.keep('tensor dict', dict(ts))
        elif how == 1:
            arg = ctl.TensorDict(self.keep('tensor dict', dict(ts)))
        elif how == 2:
            # a dict with one wrong tensor, repaired through the TensorDict
            dd = dict(ts)
            m = rng.choice(sorted(dd))
            dd[m] = None
            arg = ctl.TensorDict(self.keep('tensor dict', dd))
            arg.setTensor(m, ts[m])
        else:
            arg = ctl.TensorDict()
            for m in d['names']:
                arg.setTensor(m, ts[m])
            arg.setTensor('gone', ts[d['names'][0]])
            arg.deleteTensor('gone')
        r = f.contract(arg, removeTensorTag=d['removeTag'])
        ref.same_value(ref.t_value(r), ftnlib.expect(d, inp), 'contract')
        return desc(r)


class Mps(Base):
    def __init__(self, s):
        super().__init__(s)
        rng = random.Random('mps/%s' % s)
        n = rng.randint(2, 4)
        self.n = n
        dims = [rng.randint(2, 3) for _ in range(n)]
        v = [rng.randint(2, 3) for _ in range(n - 1)]
        ts = []
        for i in range(n):
            sh = ([v[i - 1]] if i else []) + [dims[i]] + ([v[i]] if i < n - 1 else [])
            lab = (['l'] if i else []) + ['o'] + (['r'] if i < n - 1 else [])
            ts.append(ref.mk(dict(labels=lab, dims=sh, seed=rng.randrange(1 << 30))))
        for i in range(n - 1):
            ctl.link.makeLink('r', 'l', ts[i], ts[i + 1])
        self.list = ts
        self.m = ctl.MPS.FreeBoundaryMPS(ts, chi=16, inplace=rng.random() < 0.5)
        if self.m._tensors is not ts:
            self.keep('tensor list', ts)
        else:
            self.shared = list(ts)

    def step(self, rng):
        k = rng.randrange(4)
        m = self.m
        if k == 0:
            m.canonicalize(rng.randrange(m.n))
            return [bool(m.checkCanonical()), m.n]
        if k == 1:
            i = rng.randrange(m.n - 1)
            m.swap(i, i + 1)
        elif k == 2:
            m.moveTensor(rng.randrange(m.n), rng.randrange(m.n))
        else:
            ts = m.copyOfTensors()
            for i, t in enumerate(ts):
                t.renameLabel('o', 'o%d' % i)
            return desc(ctl.optimalContract.contractTensorList(ts))
        return [m.n, [[g.name for g in m.getTensor(i).legs] for i in range(m.n)]]


def site(rng, dims, positive=True):
    a = ref.rnd(rng.randrange(1 << 30), dims, positive=positive)
    return a


class Hotrg(Base):
    def __init__(self, s):
        super().__init__(s)
        rng = random.Random('hotrg/%s' % s)
        d = rng.randint(2, 3)
        self.a = ctl.Tensor(data=self.keep('data array', ref.host(site(rng, (d, d, d, d)))), labels=self.keep('labels list', ['u', 'l', 'd', 'r']), degreeOfFreedom=1)
        self.snap = ref.Snap([self.a])
        self.h = ctl.HOTRG.HOTRG(self.a, chiH=rng.randint(2, 6), chiV=rng.choice([None, 3]))
        self.n = 0

    def step(self, rng):
        if self.n < 3 and rng.random() < 0.7:
            self.n += 1
            self.h.iterate()
            return [len(self.h.aArchive), self.h.directChoices[-1]]
        return np.array(to_np(self.h.logZDensity()))

    def changed(self):
        self.snap.check('HOTRG client', 'caller-changed')
        return super().changed()


class Square(Base):
    def __init__(self, s):
        super().__init__(s)
        rng = random.Random('square/%s' % s)
        d = rng.randint(2, 3)
        self.a = ctl.Tensor(data=self.keep('data array', ref.host(site(rng, (d, d, d, d)))), labels=['u', 'l', 'd', 'r'], degreeOfFreedom=1)
        self.snap = ref.Snap([self.a])
        self.h = ctl.TRG.SquareTRG(self.a, chi=rng.randint(2, 8))
        self.n = 0

    def step(self, rng):
        if self.n < 3 and rng.random() < 0.7:
            self.n += 1
            self.h.iterate()
            return len(self.h.aArchive)
        return np.array(to_np(self.h.logZDensity()))

    def changed(self):
        self.snap.check('SquareTRG client', 'caller-changed')
        return super().changed()


class Triangle(Base):
    def __init__(self, s):
        super().__init__(s)
        rng = random.Random('tri/%s' % s)
        self.h = ctl.TRG.TriangleTRG(rng.uniform(0.2, 1.5), chi=rng.randint(2, 8))
        self.n = 0

    def step(self, rng):
        if self.n < 3 and rng.random() < 0.7:
            self.n += 1
            self.h.iterate()
            return len(self.h.aArchive)
        return [float(x) for x in self.h.logZDensity()]


class Ctmrg(Base):
    def __init__(self, s):
        super().__init__(s)
        rng = random.Random('ctmrg/%s' % s)
        d = 2
        a = site(rng, (d, d, d, d))
        self.a = ctl.Tensor(data=self.keep('data array', ref.host(a)), labels=self.keep('labels list', ['l', 'r', 'u', 'd']))
        self.snap = ref.Snap([self.a])
        self.h = ctl.CTMRG.CTMRG(self.a, chi=rng.randint(2, 6))

    def step(self, rng):
        if rng.random() < 0.3 and len(self.h.errors) < 4:
            self.h.iterate()
            return len(self.h.errors)
        return float(self.h.getZ(rng.randint(1, 5)))

    def changed(self):
        self.snap.check('CTMRG client', 'caller-changed')
        return super().changed()


class Impurity(Base):
    def __init__(self, s):
        super().__init__(s)
        rng = random.Random('imp/%s' % s)
        a = ctl.Tensor(data=ref.host(site(rng, (2, 2, 2, 2))), labels=['u', 'l', 'd', 'r'], degreeOfFreedom=1)
        self.imps = [ctl.Tensor(data=ref.host(site(rng, (2, 2, 2, 2))), labels=['u', 'l', 'd', 'r'], degreeOfFreedom=1) for _ in range(rng.randint(1, 3))]
        self.snap = ref.Snap(self.imps)
        self.h = ctl.HOTRG.HOTRG(a, chiH=rng.randint(2, 5))
        self.i = ctl.impurity.ImpurityTensorNetwork(self.keep('impurity list', self.imps))
        self.i.setRG(self.h)
        self.n = 0

    def step(self, rng):
        if self.n < 3 and rng.random() < 0.7:
            self.n += 1
            self.h.iterate()
            self.i.iterate()
            return self.i.iterateIdx
        return [[float(y) for y in x] for x in self.i.measureObservables()]

    def changed(self):
        self.snap.check('impurity client', 'caller-changed')
        return super().changed()


BUILT = {
    'triangleContractFTN': dict(u='123', l='123', r='123'),
    'squareContractFTN': dict(ul='uldr', ur='uldr', dr='uldr', dl='uldr'),
    'squareContractOutFTN': dict(ul='dro', ur='dlo', dl='uro', dr='ulo'),
    'CTMRGHEdgeExtendFTN': dict(p='ulr', w='lrud'),
    'CTMRGVEdgeExtendFTN': dict(p='udr', w='lrud'),
    'CTMRGCornerExtendFTN': dict(c='ur', ph='lru', pv='udr', w='lrud'),
    'CTMRGHEdgeBuildFTN': dict(p='lru', al='lr', ar='lr'),
    'CTMRGVEdgeBuildFTN': dict(p='udr', au='ud', ad='ud'),
    'CTMRGEvenZFTN': dict(alu='ur', ald='ur', aru='ur', ard='ur'),
    'HOTRGHorizontalContractFTN': dict(u='lrud', d='lrud', l='udo', r='udo'),
    'HOTRGVerticalContractFTN': dict(u='lro', d='lro', l='udrl', r='udrl'),
    'squareHorizontalContractFTN': dict(ul='uldr', ur='uldr', dr='uldr', dl='uldr'),
    'squareVerticalContractFTN': dict(ul='uldr', ur='uldr', dr='uldr', dl='uldr'),
}


class Built(Base):
    """Networks made by the ready-made builders, then edited by their owner."""

    def __init__(self, s):
        super().__init__(s)
        rng = random.Random('built/%s' % s)
        some = rng.sample(sorted(BUILT), 2)
        self.names = some + rng.sample(['squareContractFTN', 'HOTRGHorizontalContractFTN', 'CTMRGCornerExtendFTN', 'CTMRGHEdgeBuildFTN'], 2)
        self.nets = []

    def step(self, rng):
        E = ctl.contractExp
        if not self.nets or rng.random() < 0.3:
            k = rng.choice(self.names)
            arg = [rng.choice('lr')] if k == 'squareHorizontalContractFTN' else [rng.choice('ud')] if k == 'squareVerticalContractFTN' else []
            f = getattr(E, k)(*arg)
            self.nets.append([f, dict(BUILT[k])])
            return [list(f.tensorNames), bool(f.locked)]
        net = rng.choice(self.nets)
        f, legs = net
        k = rng.random()
        if k < 0.2 and len(legs) < 10:
            f.unlock()
            m = 'x%d' % rng.randrange(50)
            if m in legs:
                return None
            f.addTensor(m)
            legs[m] = 'k'
            return list(f.tensorNames)
        if k < 0.3:
            f.unlock()
            m = rng.choice(sorted(legs))
            f.addPreNameChange(m, 'y', legs[m][0])
            legs[m] = 'y' + legs[m][1:]
            return m
        ts = {}
        for m in f.tensorNames:
            l = legs[m]
            a = ref.host(ref.rnd(rng.randrange(1 << 30), (2,) * len(l)))
            if l == 'uldr' and rng.random() < 0.5:
                ts[m] = ctl.tensorFactory.makeSquareTensor(self.keep('data array', a))
            elif l == '123' and rng.random() < 0.5:
                ts[m] = ctl.tensorFactory.makeTriangleTensor(self.keep('data array', a))
            else:
                ts[m] = ctl.Tensor(data=self.keep('data array', a), labels=self.keep('labels list', list(l)))
        return desc(f.contract(self.keep('tensor dict', ts), removeTensorTag=rng.random() < 0.5))


class Graphs(Base):
    """Graphs, lattices, planning and Ising networks of the client's own."""

    def __init__(self, s):
        super().__init__(s)
        self.gs = []

    def step(self, rng):
        gf = ctl.graphFuncs
        I = ctl.Ising
        k = rng.randrange(7)
        if not self.gs or k == 0:
            how = rng.randrange(4)
            if how == 0:
                g = ctl.graph.UndirectedGraph(rng.randint(2, 4))
            elif how == 1:
                n = rng.randint(2, 4)
                g = ctl.tensorGraph.TensorGraph(n, diagonalFlags=self.keep('list of flags', [rng.random() < 0.3 for _ in range(n)]) if rng.random() < 0.6 else None)
            elif how == 2:
                g = gf.squareLatticeFBC(2, rng.choice([None, 2, 3]), weight=rng.choice([0.5, (0.3, 0.4)]))
            else:
                g = gf.completeGraph(rng.randint(2, 4), weight=0.25)
            self.gs.append(g)
        g = rng.choice(self.gs)
        n = g.n
        if k in (1, 2):
            i = rng.randrange(n)
            g.addEdge(i, (i + rng.randint(1, n - 1)) % n, weight=rng.randint(2, 4) if isinstance(g, ctl.tensorGraph.TensorGraph) else round(rng.uniform(0.1, 0.9), 2))
        if k == 3 and isinstance(g, ctl.tensorGraph.TensorGraph):
            g.addFreeEdge(rng.randrange(n), weight=2)
        if k == 4:
            m = rng.randint(2, 3)
            t = I.IsingSiteTensor(self.keep('list of couplings', [round(rng.uniform(0.1, 0.9), 2) for _ in range(m)]), dim=m, labels=self.keep('labels list', ['a', 'b', 'c'][:m]))
            return desc(t)
        if k == 5:
            t = I.plaquetteIsingTensor(self.keep('list of couplings', [0.2, round(rng.uniform(0.1, 0.9), 2)]), diamondForm=rng.random() < 0.5)
            return desc(t)
        if k == 6 and isinstance(g, ctl.tensorGraph.TensorGraph):
            return [list(map(list, g.optimalContractSequence(bf=rng.random() < 0.5, typicalDim=rng.choice([None, 10])))), float(g.optimalCostResult())]
        if k == 6:
            return [float(I.exactZFromGraphIsing(g))]
        return [[x.index if x is not None else None for x in e.vertices] + [e.weight] for e in g.getEdges()]


class Prog(Base):
    """Programs that make everything they use."""

    def step(self, rng):
        return progs.run(rng.choice(['plan', 'contract', 'ftn', 'edit', 'pair', 'lattice', 'lists', 'arrays', 'ising', 'exp', 'tensor', 'diag']), rng.randrange(1 << 30))


CLS = dict(built=Built, graphs=Graphs, prog=Prog, tensors=Tensors, ftn=Ftn, mps=Mps, hotrg=Hotrg, square=Square, triangle=Triangle, ctmrg=Ctmrg, impurity=Impurity)


def outcome(o):
    if o.kind == 'ok':
        return ['ok', o.value]
    return [o.kind, type(o.exc).__name__, describe(o.exc) if o.kind == 'raised' else '']


def solo(sim, client):
    """The client alone, in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                c = CLS[client['kind']](client['s'])
                res = []
                for op in client['ops']:
                    rng = random.Random('op/%s' % op['s'])
                    o = sim.call(lambda: c.step(rng), op.get('fault'))
                    res.append((outcome(o), c.changed()))
                msg = ('ok', res)
            except Violation as v:
                msg = ('viol', v.kind, v.detail)
            except BaseException as e:   # noqa: BLE001
                import traceback
                msg = ('err', traceback.format_exc()[-1500:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(msg, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError('client process died')
    m = pickle.loads(data)
    if m[0] == 'viol':
        raise Violation(m[1], 'client alone: ' + m[2])
    if m[0] == 'err':
        raise Violation('exception', 'client %s alone: %s' % (client['kind'], m[1][-300:]))
    return m[1]


def run(spec, sim):
    clients = spec['clients']
    alone = [solo(sim, c) for c in clients]
    objs = [None] * len(clients)
    res = [[] for _ in clients]

    def one(ci, call):
        c = clients[ci]
        if objs[ci] is None:
            objs[ci] = CLS[c['kind']](c['s'])
        op = c['ops'][len(res[ci])]
        rng = random.Random('op/%s' % op['s'])
        obj = objs[ci]
        o = call(lambda: obj.step(rng), op.get('fault'))
        res[ci].append((outcome(o), obj.changed()))

    if spec['mode'] == 'threads':
        s = sched.Sched(sim, spec['sched'])

        def mk(ci):
            def body():
                for _ in clients[ci]['ops']:
                    one(ci, s.op)
            return body
        try:
            s.run([mk(i) for i in range(len(clients))])
        finally:
            sim.switch_log = s.switches
        order = s.order
    else:
        order = []
        k = 0
        left = lambda: [i for i in range(len(clients)) if len(res[i]) < len(clients[i]['ops'])]
        while left():
            l = left()
            ci = l[spec['order'][k % len(spec['order'])] % len(l)]
            k += 1
            order.append(ci)
            one(ci, sim.call)
        if len(set(order)) > 1:
            sim.nontrivial = True
    sim.note('order', order[:60])
    for ci, c in enumerate(clients):
        for k, ((o, ch), (want, wch)) in enumerate(zip(res[ci], alone[ci])):
            what = 'client %d (%s) step %d' % (ci, c['kind'], k)
            sim.note(what, show(o)[:200])
            sim.state(c['kind'], show(o))
            if want[0] == 'raised' and want[1] not in ('AssertionError', 'ValueError', 'TypeError') and not any(x[0][0] == 'fault' for x in alone[ci][:k]):
                raise Violation('exception', '%s alone raised %s' % (what, want[2]))
            if o[0] != want[0] or (o[0] == 'ok' and not equal(o[1], want[1])) or (o[0] == 'raised' and o[1] != want[1]):
                raise Violation('influenced', '%s gave %s, alone %s' % (what, show(o)[:150], show(want)[:150]))
            if ch is not None:
                raise Violation('caller-changed', '%s: the %s passed in earlier was changed' % (what, ch))
        obj = objs[ci]
        if c['kind'] == 'mps' and obj is not None and hasattr(obj, 'shared'):
            if len(obj.list) != len(obj.shared) or any(a is not b for a, b in zip(obj.list, obj.shared)):
                sim.finding('caller-list', 'FreeBoundaryMPS made with inplace = True: operations on the MPS replace the elements of the list of tensors the caller passed in')


def simplify(spec):
    for i in range(len(spec['clients'])):
        c = copy.deepcopy(spec)
        c['clients'][i]['kind'] = 'tensors'
        yield c
