"""C13: networks contracted through MPSs, in any order, mixed with ordinary contractions and failures."""
import copy
import itertools

import numpy as np

from .. import ctl, ref
from ..core import Violation, describe, to_np

RUNS = {'quick': 10000, 'thorough': 150000}
BATCH = 25
RULE = 'a random connected network contracted through MPSs by default, optimal or random orders, mixed with ordinary contractions and copies of the list, calls stopped at backend calls and repeated. Non-trivial: at least one failed call or two contractions.'
STATES = 'hash of (size of the network, order used, chi, outcome, backend call that failed)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy'


def gen(rng, tier, i):
    while True:
        net = ref.gen_net(rng, nmin=2, nmax=5, maxdim=3, diag=0.15, cplx=0.15, connected=1.0, extra=0.4, openp=0.5, maxlegs=4, limit=3000)
        if ref.is_connected(net):
            break
    ops = []
    for _ in range(rng.randint(1, 4)):
        f = None
        if rng.random() < 0.4:
            f = dict(kind=rng.choice(['oom', 'device', 'kbd', 'linalg']), frac=rng.random())
        ops.append(dict(op=rng.choice(['mps'] * 4 + ['plain', 'order']), seq=rng.choice(['greedy', 'greedy', 'optimal', 'random', 'random']),
                        chi=rng.choice([256, 256, 256, 256, 4, 2]), seed=rng.randrange(1 << 30), fault=f))
    return dict(net=net, ops=ops)


def random_order(rng, net):
    """A random order that contracts linked tensors only, results at the smaller index."""
    g = [set() for _ in net['tensors']]
    for i, _, j, _ in net['links']:
        g[i].add(j)
        g[j].add(i)
    alive = set(range(len(g)))
    seq = []
    while len(alive) > 1:
        s = rng.choice(sorted(x for x in alive if g[x]))
        t = rng.choice(sorted(g[s]))
        seq.append((s, t))
        lo, hi = min(s, t), max(s, t)
        alive.discard(hi)
        for x in g[hi]:
            g[x].discard(hi)
            if x != lo:
                g[x].add(lo)
                g[lo].add(x)
        g[hi] = set()
        g[lo].discard(lo)
        g[lo].discard(hi)
    return seq


def unlinked_step(net, seq):
    """Whether an order contracts two tensors that share no link."""
    at = list(range(len(net['tensors'])))
    for s, t in seq:
        if not any({at[i], at[j]} == {s, t} for i, _, j, _ in net['links']):
            return True
        at = [min(s, t) if x in (s, t) else x for x in at]
    return False


def changed(snap):
    """What a call did to its input tensors."""
    out = set()
    for t, old in zip(snap.ts, snap.d):
        new = snap._one(t)
        ol, nl = old[0], new[0]
        if [id(x[0]) for x in ol] != [id(x[0]) for x in nl]:
            out.add('legs replaced')
            continue
        for x, y in zip(ol, nl):
            if x[1] != y[1]:
                out.add('labels renamed')
            if x[2] != y[2]:
                out.add('dimensions changed')
            if x[3] is not y[3]:
                out.add('links changed')
            if x[4] is not y[4]:
                out.add('legs moved to other tensors')
        if old[2:4] != new[2:4] or old[5:] != new[5:]:
            out.add('attributes changed')
        if (old[1] is None) != (new[1] is None) or old[1] is not None and (old[1].shape != new[1].shape or not np.array_equal(old[1], new[1])):
            out.add('data changed')
    return sorted(out)


def compare(res, legs, want, names, what):
    if not isinstance(res, (ctl.Tensor, ctl.DiagonalTensor)):
        raise Violation('wrong-value', '%s: returned %s' % (what, type(res).__name__))
    got = ref.dense(res)
    ids = [id(g) for g in res.legs]
    if set(ids) == set(id(g) for g in legs) and len(ids) == len(legs):
        got = np.transpose(got, [ids.index(id(g)) for g in legs]) if legs else got
        ok = got.shape == want.shape and ref.close(got, want, 1e-6)
    elif sorted(res.labels) == sorted(names):
        # legs of its own: compare by label
        got = np.transpose(got, [list(res.labels).index(x) for x in names]) if names else got
        ok = got.shape == want.shape and ref.close(got, want, 1e-6)
    else:
        ok = got.ndim == want.ndim and any(tuple(want.shape[c] for c in p) == got.shape and ref.close(got, np.transpose(want, p), 1e-6) for p in itertools.permutations(range(want.ndim)))
    if not ok:
        raise Violation('wrong-value', '%s: result of shape %s is not the value of the network (shape %s)' % (what, got.shape, want.shape))


def run(spec, sim):
    import random
    net = spec['net']
    done = 0
    ts = ref.build(net)
    for oi, op in enumerate(spec['ops']):
        what = 'step %d (%s)' % (oi, op['op'])
        legs, want = ref.einsum_value(ts)
        names = [g.name for g in legs]
        snap = ref.Snap(ts)
        rng = random.Random(op['seed'])
        f = op['fault']
        if op['op'] == 'plain':
            o = sim.step(ts, lambda v: ctl.optimalContract.contractWithSequence(v), f)
            sim.expect_ok(o, what)
            snap.check(what)
            if o.ok:
                compare(o.value, legs, want, names, what)
            sim.note(what, o.kind)
            continue
        if op['op'] == 'order':
            # an order that is no order of this network
            bad = [[(0, 0)], [(0, len(ts))], [(0, 1)] * (len(ts) + 1)][op['seed'] % 3]
            o = sim.call(lambda: ctl.MPS.contractWithMPS(ts, chi=256, seq=bad))
            sim.nontrivial = True
            sim.note(what, o.kind)
            if o.kind != 'raised':
                raise Violation('accepted', '%s: order %s of %d tensors was accepted' % (what, bad, len(ts)))
        else:
            kw = dict(greedy=dict(), optimal=dict(greedyFlag=False), random=dict(seq=random_order(rng, net)))[op['seq']]
            fn = lambda v: ctl.MPS.contractWithMPS(v, chi=op['chi'], **kw)     # noqa: E731
            lst = list(ts)
            outer = False
            if op['seq'] != 'random':
                g = ctl.optimalContract
                p = sim.call(lambda: (g.generateGreedySequence if op['seq'] == 'greedy' else g.generateOptimalSequence)(ref.build(net)))
                sim.expect_ok(p, what + ', planning')
                outer = unlinked_step(net, p.value)      # outer products cannot be contracted through MPSs
            sim.tiny = False
            o = sim.step(ts, fn, f)
            if sim.tiny and o.kind == 'raised':
                sim.finding('tiny-values', 'contractWithMPS failed on a network with singular values of 1e-10 or less')
                ts = ref.build(net)
                continue
            if outer and o.kind == 'raised':
                sim.count('orders_with_outer_products_rejected')
            else:
                sim.expect_ok(o, what)
            sim.note(what, op['seq'], op['chi'], o.kind)
            sim.state(len(ts), op['seq'], op['chi'], o.kind, sim.where)
            if len(lst) != len(ts) or any(a is not b for a, b in zip(lst, ts)):
                raise Violation('input-modified', '%s: the list passed in changed' % what)
            if o.ok:
                done += 1
                if op['chi'] == 256 and sim.tiny:
                    try:
                        compare(o.value, legs, want, names, what)
                    except Violation:
                        sim.finding('tiny-values', 'contractWithMPS lost a network with singular values of 1e-10 or less')
                elif op['chi'] == 256:
                    compare(o.value, legs, want, names, what)
                elif sorted(g.dim for g in o.value.legs) != sorted(want.shape):
                    raise Violation('wrong-value', '%s: result of shape %s, the network has free legs %s' % (what, o.value.shape, want.shape))
        c = changed(snap)
        if c:
            sim.finding('input-consumed', 'contractWithMPS left its input tensors with %s' % ', '.join(c))
            ts = ref.build(net)
    if done > 1:
        sim.nontrivial = True
