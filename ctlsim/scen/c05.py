"""C05: in-place tensor operations that are rejected or fail part-way change nothing observable."""
import copy
import random

import numpy as np

from .. import ctl, ref
from ..core import Violation

RUNS = {'quick': 10000, 'thorough': 80000}
BATCH = 25
RULE = 'Random linked network and 4-14 in-place operations on it with valid or invalid arguments, many of them stopped at one of their backend calls, then retried. Non-trivial: at least one operation was rejected or stopped.'
STATES = 'hash of (operation, variant, outcome, backend call that failed)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy'

GOOD = ['reArrange', 'toTensor', 'moveLabels', 'moveLegs', 'outProduct', 'outProductLegs', 'rename', 'renames', 'addTag', 'removeTag',
        'sumOut', 'sumOutList', 'sumOutLeg', 'sumOutWeights', 'mergeLink', 'mergeLinkName', 'merge', 'mergeChi', 'contract', 'contract', 'outer', 'matmul',
        'contractBonds', 'makeLink']
BAD = ['reArrange', 'toTensor', 'moveLabels', 'moveLegs', 'moveLegsDup', 'outProduct', 'outProductLegs', 'outProductEmpty', 'outProductDiag', 'renames', 'addTag',
       'sumOutWeights', 'sumOutListWeights', 'mergeLinkDiag', 'contractLike', 'makeLinkDim', 'makeLinkCount', 'swappedLike']


def gen(rng, tier, i):
    net = ref.gen_net(rng, 2, 5 if tier == 'thorough' else 4, connected=0.7, extra=0.8, openp=0.6, limit=3000)
    ops = []
    for _ in range(rng.randint(4, 24 if tier == 'thorough' else 14)):
        bad = rng.random() < 0.35
        op = dict(op=rng.choice(BAD if bad else GOOD), bad=bad, s=rng.randrange(1 << 30))
        if not bad and rng.random() < 0.55:
            op['fault'] = dict(kind=rng.choice(['oom', 'device', 'kbd', 'linalg', 'oom']), frac=rng.random())
            if rng.random() < 0.3:
                op['twice'] = True
        ops.append(op)
    return dict(net=net, ops=ops)


def by_name(ts, lab):
    for t in ts:
        for g in t.legs:
            if g.name == lab and g.bond is None:
                return t, g
    return None


def shared(a, b):
    return [g for g in a.legs if g.bond is not None and any(ref.other(g) is h for h in b.legs)]


def pairs(ts, k=1):
    return [(i, j) for i in range(len(ts)) for j in range(len(ts)) if i != j and len(shared(ts[i], ts[j])) >= k]


def remap(world, model, f):
    """Model after free labels of the network are renamed by f(label)."""
    labels, arr = model
    return [f(x) for x in labels], arr


def plan(op, ts, model, n):
    """(fn(ts), new model, check(ts)) for a valid operation, or None.  ts is only read."""
    rng = random.Random('c05/%s' % op['s'])
    k = op['op']
    labels, arr = model
    ti = rng.randrange(len(ts))
    t = ts[ti]
    mine = [g.name for g in t.legs]
    free = [g.name for g in t.legs if g.bond is None]
    ok = None
    if k in ('reArrange', 'toTensor'):
        p = list(mine)
        rng.shuffle(p)

        def ok(w):
            if [g.name for g in w[ti].legs] != p:
                raise Violation('no-effect', 'reArrange to %s left the labels at %s' % (p, [g.name for g in w[ti].legs]))
        if k == 'toTensor':
            return (lambda w: w[ti].toTensor(list(p)) is None), model, ok
        return (lambda w: w[ti].reArrange(list(p))), model, ok
    if k in ('moveLabels', 'moveLegs'):
        if len(set(mine)) != len(mine) or not mine:
            return None
        p = rng.sample(mine, rng.randint(1, len(mine)))

        def ok(w):
            if [g.name for g in w[ti].legs][:len(p)] != p:
                raise Violation('no-effect', 'moving %s to the front left the labels at %s' % (p, [g.name for g in w[ti].legs]))
        if k == 'moveLabels':
            return (lambda w: w[ti].moveLabelsToFront(list(p))), model, ok
        return (lambda w: w[ti].moveLegsToFront([w[ti].getLeg(x) for x in p])), model, ok
    if k in ('outProduct', 'outProductLegs'):
        if t.diagonalFlag or not free:
            return None
        p = rng.sample(free, rng.randint(1, min(3, len(free))))
        if any(mine.count(x) > 1 for x in p):
            return None
        new = 'n%d' % n
        pos = [labels.index(x) for x in p]
        rest = [i for i in range(len(labels)) if i not in pos]
        a = np.transpose(arr, pos + rest)
        a = a.reshape((int(np.prod(a.shape[:len(pos)])),) + a.shape[len(pos):])
        m2 = ([new] + [labels[i] for i in rest], a)
        if k == 'outProduct':
            return (lambda w: w[ti].outProduct(list(p), new)), m2, None
        return (lambda w: w[ti].outProduct([w[ti].getLeg(x) for x in p], new)), m2, None
    if k == 'rename':
        if not mine:
            return None
        i = rng.randrange(len(mine))
        x = mine[i]
        if mine.count(x) > 1:
            return None
        new = 'n%d' % n
        bonded = t.legs[i].bond is not None

        def ok(w):
            if [g.name for g in w[ti].legs] != [new if j == i else y for j, y in enumerate(mine)]:
                raise Violation('no-effect', 'renaming %s gave %s' % (x, [g.name for g in w[ti].legs]))
        return (lambda w: w[ti].renameLabel(x, new)), (model if bonded else ([new if y == x else y for y in labels], arr)), ok
    if k == 'renames':
        if not free or len(set(mine)) != len(mine):
            return None
        p = rng.sample(free, rng.randint(1, len(free)))
        new = ['n%d_%d' % (n, j) for j in range(len(p))]
        if rng.random() < 0.6:
            # swaps and chains: some new names are old names of the list; legs with a bond may take part
            p = rng.sample(mine, rng.randint(min(2, len(mine)), len(mine)))
            new = rng.sample(p + new, len(p))
        mp = dict(zip(p, new))
        here = [mp.get(x, x) for x in mine]
        m2 = [mp.get(x, x) if x in free else x for x in labels]
        if len(set(m2)) != len(m2):
            return None

        def ok(w):
            if [g.name for g in w[ti].legs] != here:
                raise Violation('no-effect', 'renaming %s to %s gave %s' % (p, new, [g.name for g in w[ti].legs]))
        return (lambda w: w[ti].renameLabels(list(p), list(new))), (m2, arr), ok
    if k == 'addTag':
        if any('-' in x for x in mine) or not mine:
            return None
        tag = 'g%d' % n + ('-h' if (op['s'] >> 7) % 3 == 0 else '')
        mp = {x: tag + '-' + x for x in free}
        return (lambda w: w[ti].addTensorTag(tag)), ([mp.get(x, x) for x in labels], arr), None
    if k == 'removeTag':
        if not mine or not all('-' in x for x in mine):
            return None
        mp = {x: x.split('-', 1)[1] for x in free}
        new = [mp.get(x, x) for x in labels]
        if len(set(new)) != len(new):
            return None
        return (lambda w: w[ti].removeTensorTag()), (new, arr), None
    if k.startswith('sumOut'):
        if not free or len(set(mine)) != len(mine):
            return None
        # a sum over a leg of a tensor that is not diagonal, or of a diagonal one, is a sum over that free index of the network
        p = rng.sample(free, rng.randint(1, len(free)) if k == 'sumOutList' else 1)
        a, l = arr, list(labels)
        w8 = None
        if k == 'sumOutWeights':
            same = [x for x in free if t.getLeg(x).dim == t.getLeg(p[0]).dim]
            if op['s'] % 4 == 0 and len(same) > 1:
                p = same[:rng.randint(2, len(same))]
            w8 = ref.rnd(op['s'] % 1000, (t.getLeg(p[0]).dim,), op['s'] % 3 == 0)
        for x in p:
            j = l.index(x)
            a = np.tensordot(a, w8, axes=([j], [0])) if w8 is not None else np.sum(a, axis=j)
            l.pop(j)
        m2 = (l, a)
        if k == 'sumOut':
            return (lambda w: w[ti].sumOutLegByLabel(p[0])), m2, None
        if k == 'sumOutWeights':
            h = ref.host(w8)
            return (lambda w: w[ti].sumOutLegByLabel(list(p) if len(p) > 1 or op['s'] % 8 == 1 else p[0], weights=h)), m2, None
        if k == 'sumOutLeg':
            return (lambda w: w[ti].sumOutLeg(w[ti].getLeg(p[0]))), m2, None
        return (lambda w: w[ti].sumOutLegByLabel(list(p))), m2, None
    if k in ('mergeLink', 'mergeLinkName', 'merge', 'mergeChi'):
        ps = [(i, j) for i, j in pairs(ts) if not ts[i].diagonalFlag and not ts[j].diagonalFlag]
        if not ps:
            return None
        i, j = rng.choice(ps)
        name = 'n%d' % n if k == 'mergeLinkName' or rng.random() < 0.5 else None
        if name is not None and rng.random() < 0.3:
            name = (name, name + 'b')
        if name is None and len(shared(ts[i], ts[j])) > 1 and any('|'.join(g.name for g in gs) in [h.name for h in t2.legs]
                                                              for t2, gs in ((ts[i], shared(ts[i], ts[j])), (ts[j], shared(ts[j], ts[i])))):
            return None
        if isinstance(name, tuple) and len(shared(ts[i], ts[j])) == 1:
            name = name[0]
        if k.startswith('mergeLink'):
            def fn(w):
                r = ctl.link.mergeLink(w[i], w[j], bondName=name)
                w[i], w[j] = r
        else:
            chi = None if k == 'merge' else 1000

            def fn(w):
                r = ctl.contract.merge(w[i], w[j], chi=chi, bondName=name, renameWarning=False)
                w[i], w[j] = r

        def ok(w):
            m = shared(w[i], w[j])
            if len(m) != 1:
                raise Violation('no-effect', '%s left %d links between the pair' % (k, len(m)))
            if name is not None:
                want = name if isinstance(name, tuple) else (name, name)
                if (m[0].name, ref.other(m[0]).name) != want:
                    raise Violation('no-effect', '%s named the link %s, asked for %s' % (k, (m[0].name, ref.other(m[0]).name), want))
        return fn, model, ok
    if k in ('contract', 'matmul', 'contractBonds'):
        ps = pairs(ts)
        if not ps:
            return None
        i, j = rng.choice(ps)

        def fn(w):
            if k == 'matmul':
                r = w[i] @ w[j]
            elif k == 'contractBonds':
                a, b = (w[j], w[i]) if (w[j].diagonalFlag and not w[i].diagonalFlag) else (w[i], w[j])
                bonds = ctl.contract.shareBonds(a, b)
                r = ctl.contract.contractTwoTensors(a, b, bonds=bonds)
            else:
                r = ctl.contract.contractTwoTensors(w[i], w[j])
            w[:] = [x for q, x in enumerate(w) if q not in (i, j)] + [r]
        return fn, model, None
    if k == 'outer':
        ps = [(i, j) for i in range(len(ts)) for j in range(len(ts)) if i != j and not shared(ts[i], ts[j])]
        if not ps:
            return None
        i, j = rng.choice(ps)
        if ref_size(ts[i]) * ref_size(ts[j]) > 3000 or len(ts[i].legs) + len(ts[j].legs) > 10:
            return None

        def fn(w):
            r = ctl.contract.contractTwoTensors(w[i], w[j], outProductWarning=bool(op['s'] & 1))
            w[:] = [x for q, x in enumerate(w) if q not in (i, j)] + [r]
        return fn, model, None
    if k == 'makeLink':
        c = [(i, a, j, b) for i in range(len(ts)) for j in range(i + 1, len(ts)) for a, g in enumerate(ts[i].legs) for b, h in enumerate(ts[j].legs)
             if g.bond is None and h.bond is None and g.dim == h.dim]
        if not c or len(labels) < 3:
            return None
        i, a, j, b = rng.choice(c)
        x, y = ts[i].legs[a].name, ts[j].legs[b].name
        px, py = labels.index(x), labels.index(y)
        m2 = ([z for z in labels if z not in (x, y)], np.trace(arr, axis1=px, axis2=py))
        if rng.random() < 0.5:
            return (lambda w: ctl.link.makeLink(w[i].legs[a], w[j].legs[b]) is None), m2, None
        if [g.name for g in ts[i].legs].count(x) > 1 or [g.name for g in ts[j].legs].count(y) > 1:
            return None
        return (lambda w: ctl.link.makeLink(x, y, w[i], w[j]) is None), m2, None
    raise AssertionError(k)


def ref_size(t):
    s = 1
    for g in t.legs:
        s *= g.dim
    return s


def plan_bad(op, ts):
    """fn(ts) that has to be rejected, or None."""
    rng = random.Random('c05b/%s' % op['s'])
    k = op['op']
    ti = rng.randrange(len(ts))
    t = ts[ti]
    mine = [g.name for g in t.legs]
    o = ts[rng.randrange(len(ts))]
    if k in ('reArrange', 'toTensor'):
        if not mine:
            return None
        p = list(mine)
        rng.shuffle(p)
        how = rng.randrange(3)
        if how == 0:
            p.pop(rng.randrange(len(p)))
        elif how == 1:
            p.insert(rng.randrange(len(p) + 1), 'no-such')
        else:
            p[rng.randrange(len(p))] = 'no-such'
        return (lambda w: w[ti].reArrange(p)) if k == 'reArrange' else (lambda w: w[ti].toTensor(p))
    if k == 'moveLabels':
        p = rng.sample(mine, rng.randint(0, len(mine))) if len(set(mine)) == len(mine) else []
        p.insert(rng.randrange(len(p) + 1), 'no-such')
        return lambda w: w[ti].moveLabelsToFront(p)
    if k in ('moveLegs', 'moveLegsDup', 'outProductLegs'):
        p = rng.sample(range(len(mine)), rng.randint(0, len(mine)))
        if k == 'moveLegsDup':
            if not p:
                return None
            p = p + [p[0]]
            return lambda w: w[ti].moveLegsToFront([w[ti].legs[x] for x in p])
        oi = next((x for x in range(len(ts)) if ts[x] is o), 0)
        if oi == ti or not o.legs or t.diagonalFlag:
            return None
        at = rng.randrange(len(p) + 1)

        def fn(w):
            l = [w[ti].legs[x] for x in p]
            l.insert(at, w[oi].legs[0])
            return w[ti].moveLegsToFront(l) if k == 'moveLegs' else w[ti].outProduct(l, 'bad')
        return fn
    if k == 'outProduct':
        if t.diagonalFlag:
            return None
        p = rng.sample(mine, rng.randint(0, len(mine))) if len(set(mine)) == len(mine) else []
        p.append('no-such')
        return lambda w: w[ti].outProduct(p, 'bad')
    if k == 'outProductEmpty':
        return lambda w: w[ti].outProduct([] if rng.random() < 0.5 else 'abc', 'bad')
    if k == 'outProductDiag':
        if not t.diagonalFlag or not mine:
            return None
        return lambda w: w[ti].outProduct(list(mine), 'bad')
    if k == 'renames':
        if not mine:
            return None
        return lambda w: w[ti].renameLabels(mine, mine[:-1] if rng.random() < 0.5 else mine + ['more'])
    if k == 'addTag':
        if not any('-' in x for x in mine):
            if len(mine) < 2:
                return None
            j = rng.randrange(len(mine))

            def fn(w):
                g = w[ti].legs[j]
                old = g.name
                g.name = old + '-y'
                try:
                    return w[ti].addTensorTag('bad')
                finally:
                    if g.name == old + '-y':
                        g.name = old
            return fn
        return lambda w: w[ti].addTensorTag('bad')
    free = [g for g in t.legs if g.bond is None]
    if k in ('sumOutWeights', 'sumOutListWeights'):
        if not free or len(set(mine)) != len(mine):
            return None
        if k == 'sumOutWeights':
            g = rng.choice(free)
            h = ref.host(ref.rnd(1, (g.dim + 3,)))
            return lambda w: w[ti].sumOutLegByLabel(g.name, weights=h) if g.dim > 1 else reject()
        c = [(x, y) for x in free for y in free if x is not y and x.dim != y.dim and x.dim > 1 and y.dim > 1]
        if not c:
            return None
        x, y = [g.name for g in rng.choice(c)]
        h = ref.host(ref.rnd(1, (t.getLeg(x).dim,)))
        return lambda w: w[ti].sumOutLegByLabel([x, y], weights=h)
    if k == 'mergeLinkDiag':
        ps = [(i, j) for i, j in pairs(ts, 2) if ts[i].diagonalFlag or ts[j].diagonalFlag]
        if not ps:
            return None
        i, j = rng.choice(ps)
        return lambda w: ctl.link.mergeLink(w[i], w[j])
    if k == 'contractLike':
        oi = next((x for x in range(len(ts)) if ts[x] is o), 0)
        return lambda w: ctl.contract.contractTwoTensors(w[ti], w[oi].toTensorLike())
    if k == 'swappedLike':
        oi = next((x for x in range(len(ts)) if ts[x] is o), 0)
        return lambda w: ctl.contract.contractTwoTensors(w[oi].toTensorLike(), w[ti])
    if k in ('makeLinkDim', 'makeLinkCount'):
        oi = next((x for x in range(len(ts)) if ts[x] is o), 0)
        if oi == ti:
            return None
        a = [g for g in t.legs if g.bond is None]
        b = [g for g in o.legs if g.bond is None]
        good = [(x, y) for x in a for y in b if x.dim == y.dim]
        if k == 'makeLinkCount':
            if not good or len(a) < 2:
                return None
            x, y = rng.choice(good)
            z = next(q for q in a if q is not x)
            ix, iz, iy = t.legs.index(x), t.legs.index(z), o.legs.index(y)
            return lambda w: ctl.link.makeLink([w[ti].legs[ix], w[ti].legs[iz]], [w[oi].legs[iy]])
        badp = [(x, y) for x in a for y in b if x.dim != y.dim]
        if not badp:
            return None
        x, y = rng.choice(badp)
        first = [(p, q) for p, q in good if p is not x and q is not y]
        l = ([rng.choice(first)] if first else []) + [(x, y)]
        ids = [(t.legs.index(p), o.legs.index(q)) for p, q in l]
        return lambda w: ctl.link.makeLink([w[ti].legs[p] for p, _ in ids], [w[oi].legs[q] for _, q in ids])
    raise AssertionError(k)


def reject():
    raise ValueError('nothing to test')


def check_value(ts, model, what):
    ref.check_struct(ts, what)
    legs, arr = ref.einsum_value(ts)
    names = [g.name for g in legs]
    if sorted(names) != sorted(model[0]):
        raise Violation('labels', '%s: free labels %s, expected %s' % (what, sorted(names), sorted(model[0])))
    ref.same_value(ref.by_label(names, arr), ref.by_label(model[0], model[1]), what)


SLOW = ('mergeChi',)


def run(spec, sim):
    ts = ref.build(spec['net'])
    legs, arr = ref.einsum_value(ts)
    model = ([g.name for g in legs], arr)
    if len(set(model[0])) != len(model[0]):
        return
    for oi, op in enumerate(spec['ops']):
        what = 'step %d (%s)' % (oi, op['op'])
        if op['bad']:
            fn = plan_bad(op, ts)
            if fn is None:
                continue
            what = 'step %d (rejected %s)' % (oi, op['op'])
            snap = ref.Snap(ts)
            o = sim.call(lambda: fn(ts))
            sim.note(what, o.kind)
            sim.state(op['op'], 'bad', o.kind)
            sim.nontrivial = True
            sim.count('rejected')
            if o.kind != 'raised':
                raise Violation('accepted', '%s: bad arguments were accepted' % what)
            snap.check(what, 'changed-on-failure', order=False)
            check_value(ts, model, what)
            continue
        p = plan(op, ts, model, oi)
        if p is None:
            continue
        fn, m2, ok = p
        f = op.get('fault')
        for rep in range(2 if f is not None and op.get('twice') else 1):
            if f is None:
                break
            snap = ref.Snap(ts)
            before = list(ts)
            fr = dict(f, frac=(f['frac'] + 0.37 * rep) % 1.0)
            o = sim.step(ts, fn, fr)
            how = '%s stopped by %s at %s' % (what, f['kind'], sim.where) if o.fired else what
            sim.note(how, o.kind)
            sim.state(op['op'], o.kind, sim.where)
            sim.expect_ok(o, how)
            if o.ok:
                break
            if len(before) != len(ts) or any(a is not b for a, b in zip(before, ts)):
                raise Violation('changed-on-failure', '%s: list of tensors changed' % how)
            if op['op'] not in SLOW:
                snap.check(how, 'changed-on-failure', order=False)
            check_value(ts, model, how)
        else:
            o = None
        if f is None or o is None or not o.ok:
            o = sim.expect_ok(sim.call(lambda: fn(ts)), what)
            sim.note(what, 'ok')
            sim.state(op['op'], 'ok')
        model = m2
        check_value(ts, model, what)
        if ok is not None:
            ok(ts)
