"""C21: a network of shape-only tensors put through a history in lockstep with the real one."""
import random

import numpy as np

from .. import ctl, ftnlib, ref
from ..core import Violation
from . import c05

RUNS = {'quick': 15000, 'thorough': 60000}
BATCH = 25
RULE = ('Random linked network and its shape-only copy, put through the same 5-16 operations; on the real side many are stopped at a backend call and retried. '
        'Or one finite tensor network contracted alternately with real and shape-only tensors. Non-trivial: an operation was stopped or rejected.')
STATES = 'hash of (operation, made how, outcome, backend call that failed)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy'

GOOD = [x for x in c05.GOOD if x not in ('mergeChi',)] + ['mergeTrunc', 'mergeTrunc', 'copy', 'like', 'plan', 'access', 'access']
BAD = [x for x in c05.BAD if x not in ('sumOutWeights', 'sumOutListWeights', 'contractLike', 'swappedLike')] + ['mixed']
MAKE = ['list', 'each', 'fresh', 'fresh-data', 'factory', 'factory-data']


def gen(rng, tier, i):
    if rng.random() < 0.15:
        d = ftnlib.gen_desc(rng, nmax=4)
        seq = []
        base = None
        for _ in range(rng.randint(2, 6)):
            if base is None or rng.random() < 0.6:
                base = ftnlib.gen_input(rng, d)
            fault = dict(kind=rng.choice(['oom', 'device', 'kbd']), frac=rng.random()) if rng.random() < 0.3 else None
            seq.append(dict(inp=base, order=rng.choice(['rl', 'lr', 'lrl', 'l']), fault=fault, plain=rng.random() < 0.5))
        return dict(mode='ftn', desc=d, seq=seq)
    net = ref.gen_net(rng, 2, 6 if tier == 'thorough' else 5, connected=0.7, extra=0.8, openp=0.6, limit=3000)
    ops = []
    for _ in range(rng.randint(5, 24 if tier == 'thorough' else 16)):
        bad = rng.random() < 0.25
        op = dict(op=rng.choice(BAD if bad else GOOD), bad=bad, s=rng.randrange(1 << 30))
        if not bad and rng.random() < 0.35:
            op['fault'] = dict(kind=rng.choice(['oom', 'device', 'kbd', 'linalg', 'oom']), frac=rng.random())
        ops.append(op)
    return dict(mode='net', net=net, make=rng.choice(MAKE), ops=ops)


def make_twin(ts, spec):
    """Shape-only network with the structure of the real one, made in one of several ways."""
    how = spec['make']
    if how == 'list':
        return ctl.optimalContract.copyTensorList(ts, tensorLikeFlag=True)
    out = []
    for k, t in enumerate(ts):
        if how == 'each':
            out.append(t.toTensorLike())
            continue
        c = ctl.DiagonalTensor if t.diagonalFlag else ctl.Tensor
        s = spec['net']['tensors'][k]['seed']
        data = dict(data=ref.host(ref.dense(t))) if how.endswith('-data') else {}
        form = dict(shape=tuple(t.shape), labels=list(t.labels))
        if not t.legs and s % 4 < 2:
            form, data = dict(shape=()), {}
        if how.startswith('factory') and not t.diagonalFlag:
            out.append(ctl.TensorLike(name=t.name, degreeOfFreedom=t.degreeOfFreedom, **form, **data))
        else:
            out.append(c(name=t.name, degreeOfFreedom=t.degreeOfFreedom, tensorLikeFlag=True, **form, **data))
    for i, li, j, lj in spec['net']['links']:
        ctl.link.makeLink(out[i].legs[li], out[j].legs[lj])
    return out


def where(ts):
    return {id(g): (k, x) for k, t in enumerate(ts) for x, g in enumerate(t.legs)}


def compare(ts, tw, what, strict):
    """Same labels, dimensions, links, flags; then the shape-only legs are put in the order of the real ones."""
    if len(ts) != len(tw):
        raise Violation('shape-only', '%s: %d tensors, %d shape-only ones' % (what, len(ts), len(tw)))
    for k, (a, b) in enumerate(zip(ts, tw)):
        if not b.tensorLikeFlag or b.a is not None:
            raise Violation('shape-only', '%s: shape-only tensor %d now holds data (%r)' % (what, k, type(b.a).__name__))
        if a.tensorLikeFlag:
            raise Violation('shape-only', '%s: real tensor %d became shape-only' % (what, k))
        if bool(a.diagonalFlag) != bool(b.diagonalFlag) or isinstance(a, ctl.DiagonalTensor) != isinstance(b, ctl.DiagonalTensor):
            raise Violation('shape-only', '%s: tensor %d is %s, shape-only %s' % (what, k, type(a).__name__, type(b).__name__))
        if (a.name, a.degreeOfFreedom) != (b.name, b.degreeOfFreedom):
            raise Violation('shape-only', '%s: name and degree of freedom of tensor %d are %s, shape-only %s' % (what, k, (a.name, a.degreeOfFreedom), (b.name, b.degreeOfFreedom)))
        la, lb = [(g.name, g.dim) for g in a.legs], [(g.name, g.dim) for g in b.legs]
        if (la != lb) if strict else (sorted(la) != sorted(lb)):
            raise Violation('shape-only', '%s: legs of tensor %d are %s, shape-only %s' % (what, k, la, lb))
        if tuple(b.shape) != tuple(g.dim for g in b.legs) or b.dim != a.dim or b.totalSize != a.totalSize:
            raise Violation('shape-only', '%s: shape-only tensor %d has shape %s, %s legs and size %s' % (what, k, tuple(b.shape), b.dim, b.totalSize))
        if la != lb:
            names = [x for x, _ in la]
            if len(set(names)) != len(names):
                return False
            b.moveLegsToFront([b.getLeg(x) for x in names])
    wa, wb = where(ts), where(tw)
    for k, (a, b) in enumerate(zip(ts, tw)):
        for x, (g, h) in enumerate(zip(a.legs, b.legs)):
            if h.tensor is not b:
                raise Violation('shape-only', '%s: leg %s of shape-only tensor %d does not point back to it' % (what, h.name, k))
            p, q = ref.other(g), ref.other(h)
            p, q = (None if p is None else wa.get(id(p), 'outside')), (None if q is None else wb.get(id(q), 'outside'))
            if p != q:
                raise Violation('shape-only', '%s: leg %s of tensor %d is linked to %s, shape-only to %s' % (what, g.name, k, p, q))
    return True


def full_rank(a, b, chi):
    """Dimension a truncated merge keeps on random data, or None when the matrix is too close to a smaller rank."""
    legs, arr = ref.einsum_value([a, b])
    da = [i for i, g in enumerate(legs) if g.tensor is a]
    db = [i for i, g in enumerate(legs) if g.tensor is b]
    m = np.transpose(arr, da + db)
    m = m.reshape(int(np.prod([m.shape[i] for i in range(len(da))])), -1)
    d = int(np.prod([g.dim for g in c05.shared(a, b)]))
    s = np.linalg.svd(m, compute_uv=False)
    r = min(d, m.shape[0], m.shape[1])
    if s[0] < 1e-2 or s[r - 1] < 1e-4 * s[0] or s[r - 1] < 1e-5:
        return None
    return min(r, chi)


def plan2(op, ts, n):
    """(fn(ts), check(ts)) for the operations C05 does not have."""
    rng = random.Random('c21/%s' % op['s'])
    k = op['op']
    if k == 'mergeTrunc':
        ps = [(i, j) for i, j in c05.pairs(ts) if not ts[i].diagonalFlag and not ts[j].diagonalFlag]
        if not ps:
            return None
        i, j = rng.choice(ps)
        chi = rng.choice([1, 2, 2, 3, 100])
        if len(set(ts[i].labels)) != len(ts[i].labels) or len(set(ts[j].labels)) != len(ts[j].labels):
            return None
        want = full_rank(ts[i], ts[j], chi)
        if want is None:
            return None

        def fn(w):
            r = ctl.contract.merge(w[i], w[j], chi=chi, bondName='n%d' % n, renameWarning=False)
            w[i], w[j] = r

        def ok(w):
            m = c05.shared(w[i], w[j])
            if len(m) != 1 or m[0].dim != want:
                raise Violation('no-effect', 'truncated merge left links of dimensions %s, expected one of %d' % ([g.dim for g in m], want))
        return fn, ok
    if k == 'copy':
        def fn(w):
            w[:] = ctl.optimalContract.copyTensorList(w, tensorLikeFlag=w[0].tensorLikeFlag)
        return fn, None
    raise AssertionError(k)


def access(rng, t):
    k = rng.randrange(6)
    half = list(t.legs)[:rng.randint(0, len(t.legs))]
    return [('toVector', lambda: t.toVector()), ('toMatrix', lambda: t.toMatrix(rows=half, cols=None)), ('norm', lambda: t.norm()),
            ('trace', lambda: t.trace(rows=half, cols=None)), ('single', lambda: t.single()), ('toTensor', lambda: t.toTensor(t.labels if rng.random() < 0.5 else None))][k]


def on_twin(sim, fn, what):
    n = sim.calls
    o = sim.call(fn)
    if sim.calls != n:
        raise Violation('numerical-call', '%s: the shape-only side made %d numerical calls' % (what, sim.calls - n))
    return o


def run(spec, sim):
    return run_ftn(spec, sim) if spec['mode'] == 'ftn' else run_net(spec, sim)


def run_net(spec, sim):
    ts = ref.build(spec['net'])
    o = on_twin(sim, lambda: make_twin(ts, spec), 'making the shape-only network') if not spec['make'].endswith('-data') else sim.call(lambda: make_twin(ts, spec))
    sim.expect_ok(o, 'making the shape-only network (%s)' % spec['make'])
    tw = o.value
    strict = True
    compare(ts, tw, 'made by %s' % spec['make'], True)
    for oi, op in enumerate(spec['ops']):
        what = 'step %d (%s)' % (oi, op['op'])
        rng = random.Random('c21x/%s' % op['s'])
        if op['bad']:
            if op['op'] == 'mixed':
                i, j = rng.randrange(len(ts)), rng.randrange(len(ts))
                what = 'step %d (shape-only with real)' % oi
                sn, st = ref.Snap(ts), ref.Snap(tw)
                a, b = (ts[i], tw[j]) if rng.random() < 0.5 else (tw[j], ts[i])
                f = rng.choice([lambda: ctl.contract.contractTwoTensors(a, b), lambda: a @ b, lambda: ctl.contract.contractTwoTensors(a, b, outProductWarning=False),
                                lambda: ctl.contract.merge(a, b)])
                o = sim.call(f)
                sim.note(what, o.kind)
                sim.nontrivial = True
                if o.kind != 'raised':
                    raise Violation('accepted', '%s: accepted' % what)
                sn.check(what, 'changed-on-failure', order=False)
                st.check(what, 'changed-on-failure', order=False)
                continue
            f = c05.plan_bad(op, ts)
            if f is None:
                continue
            what = 'step %d (rejected %s)' % (oi, op['op'])
            g = c05.plan_bad(op, tw)
            snap = ref.Snap(tw)
            o = sim.call(lambda: f(ts))
            o2 = on_twin(sim, lambda: g(tw), what)
            sim.note(what, o.kind, o2.kind)
            sim.state(op['op'], 'bad', o.kind)
            sim.nontrivial = True
            sim.count('rejected')
            if o.kind != o2.kind:
                raise Violation('accepted', '%s: the real network %s, the shape-only one %s' % (what, o.kind, o2.kind))
            snap.check(what, 'changed-on-failure', order=False)
            strict = False
            if not compare(ts, tw, what, strict):
                return
            continue
        if op['op'] == 'access':
            k = rng.randrange(len(ts))
            nm, f = access(rng, tw[k])
            what = 'step %d (%s of a shape-only tensor)' % (oi, nm)
            snap = ref.Snap(tw)
            o = on_twin(sim, f, what)
            sim.note(what, o.kind)
            sim.state(nm, o.kind)
            if o.kind != 'raised':
                raise Violation('accepted', '%s: returned %r' % (what, type(o.value).__name__))
            snap.check(what, 'changed-on-failure')
            continue
        if op['op'] == 'like':
            # a shape-only network derived anew from either one
            src = rng.choice([ts, tw])
            o = on_twin(sim, lambda: ctl.optimalContract.copyTensorList(src, tensorLikeFlag=True), what)
            sim.expect_ok(o, what)
            tw = o.value
            sim.note(what, 'real' if src is ts else 'shape-only')
            if not compare(ts, tw, what, strict):
                return
            continue
        if op['op'] == 'plan':
            plan_both(sim, rng, ts, tw, what)
            continue
        legs, arr = ref.einsum_value(ts)
        model = ([g.name for g in legs], arr)
        if len(set(model[0])) != len(model[0]):
            return
        if op['op'] in ('mergeTrunc', 'copy'):
            p = plan2(op, ts, oi)
            if p is None:
                continue
            fn, ok = p
            gn = fn
        else:
            p = c05.plan(op, ts, model, oi)
            if p is None:
                continue
            fn, _, ok = p
            gn = fn
            if op['op'] == 'toTensor':
                gn = c05.plan(dict(op, op='reArrange'), tw, model, oi)[0]
        f = op.get('fault')
        o = None
        if f is not None:
            o = sim.step(ts, fn, f)
            sim.note(what, o.kind, sim.where)
            sim.state(op['op'], o.kind, sim.where)
            sim.expect_ok(o, what)
            if not o.ok:
                strict = False
        if o is None or not o.ok:
            sim.expect_ok(sim.call(lambda: fn(ts)), what)
            sim.note(what, 'ok')
            sim.state(op['op'], spec['make'], 'ok')
        o = on_twin(sim, lambda: gn(tw), what)
        if o.kind == 'raised':
            sim.expect_ok(o, '%s of shape-only tensors' % what)
        if not compare(ts, tw, what, strict):
            return
        if ok is not None:
            ok(ts)
            ok(tw)


def plan_both(sim, rng, ts, tw, what):
    """Orders and costs are a matter of shapes only."""
    if len(ts) < 2 or len(ts) > 5:
        return
    bf, tyd = rng.random() < 0.3, rng.choice([None, None, 2, 10])
    oc = ctl.optimalContract
    r = sim.expect_ok(sim.call(lambda: oc.generateOptimalSequence(ts, bf=bf, typicalDim=tyd)), what).value
    l = sim.expect_ok(sim.call(lambda: oc.generateOptimalSequence(tw, bf=bf, typicalDim=tyd)), '%s for shape-only tensors' % what).value
    sim.note(what, len(r), len(l))
    if len(r) != len(l):
        raise Violation('shape-only', '%s: orders %s and %s' % (what, r, l))
    if bf and not any(t.diagonalFlag for t in ts):
        cost = [sim.expect_ok(sim.call(lambda: oc.contractAndCostWithSequence(tw, seq=x)), what).value[1] for x in (r, l)]
        if tyd is None and abs(cost[0] - cost[1]) > 1e-6 * max(1.0, abs(cost[0])):
            raise Violation('shape-only', '%s: the cheapest order %s costs %s, for shape-only tensors %s costs %s' % (what, r, cost[0], l, cost[1]))
    a = sim.expect_ok(sim.call(lambda: oc.contractAndCostWithSequence(ts, seq=r)), what).value
    b = sim.expect_ok(sim.call(lambda: oc.contractAndCostWithSequence(tw, seq=r)), '%s of shape-only tensors' % what).value
    sim.count('plan')
    if abs(a[1] - b[1]) > 1e-6 * max(1.0, abs(a[1])):
        raise Violation('shape-only', '%s: contracting in order %s costs %s, with shape-only tensors %s' % (what, r, a[1], b[1]))
    same(a[0], b[0], what)


def same(a, b, what):
    if not b.tensorLikeFlag or b.a is not None:
        raise Violation('shape-only', '%s: the result of shape-only tensors holds data' % what)
    if bool(a.diagonalFlag) != bool(b.diagonalFlag):
        raise Violation('shape-only', '%s: the result is %s, of shape-only tensors %s' % (what, type(a).__name__, type(b).__name__))
    la, lb = sorted((g.name, g.dim) for g in a.legs), sorted((g.name, g.dim) for g in b.legs)
    if la != lb:
        raise Violation('shape-only', '%s: the result has legs %s, of shape-only tensors %s' % (what, la, lb))


def run_ftn(spec, sim):
    d = spec['desc']
    net = ftnlib.build_ftn(d)
    for si, s in enumerate(spec['seq']):
        what = 'call %d' % si
        real = ftnlib.tensors(d, s['inp'])
        like = {m: t.toTensorLike() for m, t in real.items()}
        lab, arr = ftnlib.expect(d, s['inp'])
        want = list(zip(lab, arr.shape))
        snap = ref.Snap(list(real.values()) + list(like.values()))
        for c in s['order']:
            who = '%s with %s tensors' % (what, 'real' if c == 'r' else 'shape-only')
            ts = real if c == 'r' else like

            def op(w):
                return ftnlib.call(w[0], d, s['inp'], s['plain'], w[1])
            world = [net, ts]
            if s['fault'] is not None:
                o = sim.step(world, op, s['fault'])
                sim.note(who, o.kind, sim.where)
                sim.state('ftn', c, o.kind, sim.where)
                sim.expect_ok(o, who)
            else:
                o = None
            if o is None or not o.ok:
                o = sim.expect_ok(sim.call(lambda: op(world)), who)
            r = o.value
            sim.note(who, r.labels, r.shape)
            if bool(r.tensorLikeFlag) != (c == 'l') or (r.a is None) != (c == 'l'):
                raise Violation('shape-only', '%s: the result is%s shape-only' % (who, '' if r.tensorLikeFlag else ' not'))
            if sorted((g.name, g.dim) for g in r.legs) != want:
                raise Violation('shape-only', '%s: the result has legs %s, expected %s' % (who, sorted((g.name, g.dim) for g in r.legs), want))
            snap.check(who)
