"""C06: pairwise contraction in any order, by one or several workers, gives the Einstein-summation value."""
import random

import numpy as np

from .. import ctl, ref, sched
from ..core import Violation, describe

RUNS = {'quick': 8000, 'thorough': 70000}
BATCH = 25
RULE = 'Random network of 2-7 dense or diagonal tensors, split between 1-3 worker threads that contract, reorder, rename and merge inside their parts; the rest is contracted serially in random order with failed and retried steps. Non-trivial: a pre-emptive switch, a fault, or an order of at least 3 contractions.'
STATES = 'hash of (operations in execution order, kinds of the tensors involved)'
REAL = 'all CTL code, real Python threads (one released at a time), numpy kernels'
STUBS = 'thread scheduler, backend module proxy'

ACTS = ['contract', 'contract', 'contract', 'contract', 'matmul', 'reArrange', 'renameBonded', 'mergeLink', 'merge', 'mergeChi', 'outer', 'front', 'copyOut']


def gen_act(rng, p=0.25):
    op = dict(op=rng.choice(ACTS), s=rng.randrange(1 << 30))
    if rng.random() < p:
        op['fault'] = dict(kind=rng.choice(['oom', 'device', 'kbd', 'linalg']), at=rng.randrange(0, 9))
    return op


def gen(rng, tier, i):
    net = ref.gen_net(rng, 2, 8 if tier == 'thorough' else 7, connected=0.75, openp=0.3, limit=2500, diag=rng.choice([0.0, 0.3, 0.6]), cplx=0.3)
    n = len(net['tensors'])
    w = rng.choice([1, 2, 2, 3]) if n >= 3 else 1
    part = [rng.randrange(w) for _ in range(n)]
    tasks = [dict(ops=[gen_act(rng, 0.12) for _ in range(rng.randint(1, 5))]) for _ in range(w)]
    return dict(net=net, part=part, tasks=tasks, sched=sched.random_conf(rng, opcode=0.08),
                ops=[gen_act(rng) for _ in range(rng.randint(0, 10))], final=rng.choice(['pairs', 'pairs', 'inplace', 'optimal', 'greedy', 'bf', 'list']), fs=rng.randrange(1 << 30))


def shared(a, b):
    return [g for g in a.legs if g.bond is not None and any(ref.other(g) is h for h in b.legs)]


def size(t):
    s = 1
    for g in t.legs:
        s *= g.dim
    return s


def choose(op, ts, limit=20000):
    """Resolve an action on the list of tensors ts: (name, closure that performs it and updates ts)."""
    rng = random.Random('c06/%s' % op['s'])
    k = op['op']
    n = len(ts)
    if k in ('contract', 'matmul', 'mergeLink', 'merge', 'mergeChi'):
        ps = [(i, j) for i in range(n) for j in range(n) if i != j and shared(ts[i], ts[j])]
        if k.startswith('merge'):
            ps = [(i, j) for i, j in ps if not ts[i].diagonalFlag and not ts[j].diagonalFlag]
        else:
            ps = [(i, j) for i, j in ps if fits(ts[i], ts[j], limit)]
        if not ps:
            return None
        i, j = rng.choice(ps)
        a, b = ts[i], ts[j]
        if k in ('contract', 'matmul'):
            given = rng.random() < 0.35
            sr = rng.randrange(1 << 30)

            def fn():
                if k == 'matmul':
                    r = a @ b
                elif given:
                    bonds = [g.bond for g in shared(a, b)]
                    random.Random(sr).shuffle(bonds)
                    r = ctl.contract.contractTwoTensors(a, b, bonds=bonds)
                else:
                    r = ctl.contract.contractTwoTensors(a, b)
                ts[:] = [x for x in ts if x is not a and x is not b] + [r]
            return k, fn
        name = 'M%d' % (op['s'] % 997) if rng.random() < 0.5 else None
        if name is not None and any(name in [g.name for g in t.legs] for t in (a, b)):
            name = None

        def fn():
            if k == 'mergeLink':
                r = ctl.link.mergeLink(a, b, bondName=name)
            else:
                r = ctl.contract.merge(a, b, chi=(None if k == 'merge' else 1000), bondName=name, renameWarning=False)
            ts[:] = [r[0] if x is a else (r[1] if x is b else x) for x in ts]
        return k, fn
    if k == 'outer':
        ps = [(i, j) for i in range(n) for j in range(n) if i != j and not shared(ts[i], ts[j]) and fits(ts[i], ts[j], 3000)]
        if not ps:
            return None
        i, j = rng.choice(ps)
        a, b = ts[i], ts[j]

        def fn():
            r = ctl.contract.contractTwoTensors(a, b, outProductWarning=False)
            ts[:] = [x for x in ts if x is not a and x is not b] + [r]
        return k, fn
    t = rng.choice(ts)
    if k == 'copyOut':
        # observers: things that must not disturb the tensor
        def fn():
            t.copy()
            if not t.diagonalFlag and t.legs:
                t.toMatrix(rows=list(t.legs[:1]), cols=None)
            float(t.norm())
        return k, fn
    if k == 'renameBonded':
        c = [i for i, g in enumerate(t.legs) if g.bond is not None and [h.name for h in t.legs].count(g.name) == 1]
        if not c:
            return None
        lab = t.legs[rng.choice(c)].name
        return k, (lambda: t.renameLabel(lab, 'R%d' % (op['s'] % 9973)))
    labs = [g.name for g in t.legs]
    rng.shuffle(labs)
    if k == 'reArrange':
        return k, (lambda: t.reArrange(labs))
    if len(set(labs)) != len(labs) or not labs:
        return None
    labs = labs[:rng.randint(1, len(labs))]
    return k, (lambda: t.moveLabelsToFront(labs))


def fits(a, b, limit):
    s = size(a) * size(b)
    for g in shared(a, b):
        s //= g.dim * g.dim
    return s <= limit and len(a.legs) + len(b.legs) <= 20


def check(ts, truth, what):
    ref.check_struct(ts, what)
    legs, arr = ref.einsum_value(ts)
    names = [g.name for g in legs]
    if len(set(names)) != len(names):
        raise Violation('labels', '%s: free labels %s, expected %s' % (what, sorted(names), list(truth[0])))
    ref.same_value(ref.by_label(names, arr), truth, what)


def run(spec, sim):
    ts = ref.build(spec['net'])
    legs, arr = ref.einsum_value(ts)
    names = [g.name for g in legs]
    if len(set(names)) != len(names):
        return
    truth = ref.by_label(names, arr)
    nw = len(spec['tasks'])
    groups = [[t for t, p in zip(ts, spec['part']) if p == w] for w in range(nw)]
    done = []
    s = sched.Sched(sim, spec['sched'])

    def mk(w):
        def body():
            for op in spec['tasks'][w]['ops']:
                if not groups[w]:
                    return
                c = choose(op, groups[w])
                if c is None:
                    continue
                o = s.op(c[1], op.get('fault'))
                done.append((w, c[0], o.kind))
                if o.kind == 'raised':
                    raise Violation('exception', 'worker %d: %s raised %s' % (w, c[0], describe(o.exc)))
                if o.kind == 'fault' and op['s'] % 2:
                    c = choose(op, groups[w])
                    if c is not None:
                        o = s.op(c[1], None)
                        if not o.ok:
                            raise Violation('exception', 'worker %d: %s repeated after a failure raised %s' % (w, c[0], describe(o.exc)))
        return body
    try:
        s.run([mk(w) for w in range(nw)])
    finally:
        sim.switch_log = s.switches
    sim.note('workers', done)
    ts = [t for g in groups for t in g]
    check(ts, truth, 'after the workers')
    sim.state('workers', done)
    n = len(done)
    for oi, op in enumerate(spec['ops']):
        c = choose(op, ts)
        if c is None:
            continue
        what = 'step %d (%s)' % (oi, c[0])
        o = sim.expect_ok(sim.call(c[1], op.get('fault')), what)
        sim.note(what, o.kind, sim.where)
        sim.state(oi, c[0], o.kind, len(ts))
        check(ts, truth, what if o.ok else what + ' stopped at %s' % sim.where)
        n += o.ok
    # finish
    rng = random.Random('c06f/%s' % spec['fs'])
    k = spec['final']
    oc = ctl.optimalContract
    if k in ('optimal', 'bf', 'list') and len(ts) > 7:
        k = 'greedy'
    if k == 'pairs':
        while len(ts) > 1:
            a, b = rng.sample(ts, 2)
            o = sim.expect_ok(sim.call(lambda: ctl.contract.contractTwoTensors(a, b, outProductWarning=False)), 'final contraction')
            ts = [x for x in ts if x is not a and x is not b] + [o.value]
            n += 1
            check(ts, truth, 'final contraction')
        res = ts[0]
    else:
        seq = [tuple(x) for x in ref.rand_seq(rng, len(ts))]
        f = {'inplace': lambda: oc.contractWithSequence(ts, seq=seq, inplace=True, outProductWarning=False),
             'optimal': lambda: oc.contractWithSequence(ts, typicalDim=rng.choice([None, 4]), outProductWarning=False),
             'greedy': lambda: oc.contractAndCostWithSequence(ts, greedy=True, outProductWarning=False)[0],
             'bf': lambda: oc.contractWithSequence(ts, bf=True, typicalDim=None, outProductWarning=False),
             'list': lambda: oc.contractTensorList(ts, outProductWarning=False)}[k]
        o = sim.expect_ok(sim.call(f), 'final contraction (%s)' % k)
        res = o.value
        n += len(ts) - 1
    ref.check_struct([res], 'the result')
    ref.same_value(ref.t_value(res), truth, 'final contraction (%s)' % k)
    sim.note('final', k)
    if n >= 3:
        sim.nontrivial = True
