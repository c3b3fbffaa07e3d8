"""C08: HOTRG trajectories under failed and repeated iterations, against a numpy HOTRG and the exact torus."""
import numpy as np

from .. import ctl, drv, ref
from ..core import Violation, to_np

RUNS = {'quick': 2500, 'thorough': 30000}
BATCH = 25
RULE = 'HOTRG driver on a random positive or Ising tensor with random bond dimensions; iterations, queries and rejected calls, many of them stopped at one of their backend calls and repeated. Non-trivial: at least one failed step or three iterations.'
STATES = 'hash of (completed iterations, operation, outcome, backend call that failed)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy'


def gen_tensor(rng, positive=True):
    k = rng.choice(['random', 'random', 'random', 'ising', 'isingH', 'near'])
    v = rng.randint(2, 3)
    h = v if rng.random() < 0.5 else rng.randint(2, 3)
    if k in ('ising', 'isingH'):
        return dict(kind=k, dims=[2, 2, 2, 2], beta=round(rng.uniform(0.05, 0.8), 4), h=round(rng.uniform(0.01, 0.5), 3) if k == 'isingH' else 0.0,
                    seed=0, labels=rng.sample('uldr', 4), dof=rng.choice([None, 1, 2, 3]), raw=rng.random() < 0.2)
    return dict(kind=k, dims=[v, h, v, h], seed=rng.randrange(1 << 30), scale=round(10 ** rng.uniform(-1.5, 1.5), 3),
                labels=rng.sample('uldr', 4), dof=rng.choice([None, 1, 2, 3]), raw=rng.random() < 0.2)


def site(ts):
    """Plain array with legs u, l, d, r."""
    if ts['kind'] in ('ising', 'isingH'):
        a = np.zeros((2, 2, 2, 2))
        for s in range(16):
            idx = [(s >> i) & 1 for i in range(4)]
            e = sum(-1.0 if idx[i] == idx[(i + 1) % 4] else 1.0 for i in range(4))
            a[tuple(idx)] = np.exp(-ts['beta'] * e + ts['h'] * sum(-0.5 if x == 0 else 0.5 for x in idx))
        return a
    a = ref.rnd(ts['seed'], tuple(ts['dims']), positive=True)
    if ts['kind'] == 'near':
        # close to a product: small singular values
        a = np.ones(ts['dims']) + 0.02 * a
    return a * ts.get('scale', 1.0)


def make(ts):
    """(argument for a driver, plain array u l d r, degree of freedom)."""
    a = site(ts)
    if ts['raw']:
        return ref.host(a), a, 1
    p = ['uldr'.index(x) for x in ts['labels']]
    t = ctl.Tensor(data=ref.host(np.transpose(a, p)), labels=list(ts['labels']), degreeOfFreedom=ts['dof'])
    return t, a, (1 if ts['dof'] is None else ts['dof'])


def gen_fault(rng, p):
    if rng.random() >= p:
        return None
    # late failures (in the recording of the step) get extra weight
    return dict(kind=rng.choice(['oom', 'device', 'kbd', 'linalg']), frac=rng.random() if rng.random() < 0.7 else 1.0 - 0.12 * rng.random() ** 2)


def gen(rng, tier, i):
    ops = []
    n = 0
    cap = 6 if tier == 'thorough' else 4
    for _ in range(rng.randint(3, 14)):
        k = rng.choice(['iterate'] * 5 + ['logz', 'logz', 'trace', 'norm', 'bad'])
        if k == 'iterate':
            if n >= cap:
                continue
            n += 1
        ops.append(dict(op=k, x=rng.randrange(8), fault=gen_fault(rng, 0.5 if k == 'iterate' else 0.3), twice=rng.random() < 0.3))
    return dict(site=gen_tensor(rng), chiH=rng.choice([2, 3, 4, 5, 6, 8, 9]), chiV=rng.choice([None, None, 2, 4, 6, 9]), ops=ops)


def state(h):
    return dict(a=drv.tens(h.a), aNorms=[float(x) for x in h.aNorms], errors=[float(x) for x in h.errors], aArchive=[drv.tens(t) for t in h.aArchive],
                directChoices=list(h.directChoices), projectors=[np.array(to_np(p)) for p in h.projectors], chi=(h.chiH, h.chiV))


def tokens(old, new, d, backup):
    """How the state differs, relative to the next completed iteration."""
    b = backup
    try:
        b.iterate()
        nxt = state(b)
    finally:
        pass
    out = []
    for k in d:
        if k == 'a':
            n = float(np.linalg.norm(new['a'][1]))
            if new['a'][1].shape == nxt['a'][1].shape and abs(n - nxt['aNorms'][-1]) <= 1e-9 * n and abs(n - 1) > 1e-9:
                out.append('the tensor of the next iteration, not normalised')
            elif new['a'][1].shape == nxt['a'][1].shape and abs(n - 1.0) < 1e-9 and (len(new['aNorms']) == len(old['aNorms']) or 'aNorms+1' in d):
                out.append('the tensor of the next iteration, normalised')
            else:
                out.append('a changed otherwise')
        elif k.endswith('+1'):
            name = k[:-2]
            ok = drv.close(new[name][-1], nxt[name][-1]) if name in ('aNorms', 'errors') else True
            out.append(k if ok else k + ' (other value)')
        else:
            out.append(k + ' changed otherwise')
    return sorted(out)


def check_records(h, R, spec, what, kept):
    """Records of completed iterations only, equal to the reference."""
    n = len(R.a)
    st = state(h)
    if not (len(st['aNorms']) == len(st['aArchive']) == n and len(st['errors']) == len(st['directChoices']) == len(st['projectors']) == n - 1):
        raise Violation('records', '%s: %d completed iterations, but %s' % (what, n - 1, {k: len(st[k]) for k in ('aNorms', 'aArchive', 'errors', 'directChoices', 'projectors')}))
    if not drv.close(st['aArchive'][0][1], np.transpose(R.a[0], ['uldr'.index(x) for x in st['aArchive'][0][0]])):
        raise Violation('records', '%s: first archived tensor is not the normalised input' % what)
    for i in range(n):
        lab, arr, dof, linked = st['aArchive'][i]
        if sorted(lab) != sorted('uldr') or any(linked):
            raise Violation('records', '%s: archived tensor %d has legs %s%s' % (what, i, lab, ', linked' if any(linked) else ''))
        if dof != R.dof[i]:
            raise Violation('records', '%s: archived tensor %d covers %s sites, expected %s' % (what, i, dof, R.dof[i]))
        if i < len(kept):
            if not drv.same(kept[i], st['aArchive'][i]):
                raise Violation('archive-changed', '%s: archived tensor %d changed after it was recorded' % (what, i))
        else:
            kept.append(st['aArchive'][i])
    m = R.ok
    if not drv.close(st['aNorms'][:m], R.norms[:m], 1e-7):
        raise Violation('trajectory', '%s: norms %s, expected %s' % (what, st['aNorms'][:m], R.norms[:m]))
    if not np.all(np.abs(np.array(st['errors'][:m - 1]) - np.array(R.errors[:m - 1])) < 1e-8):
        raise Violation('trajectory', '%s: errors %s, expected %s' % (what, st['errors'][:m - 1], R.errors[:m - 1]))
    for i in range(1, m):
        lab, arr = st['aArchive'][i][:2]
        a = np.transpose(arr, [lab.index(x) for x in 'uldr'])
        if a.shape != R.a[i].shape:
            raise Violation('trajectory', '%s: archived tensor %d has shape %s, expected %s' % (what, i, a.shape, R.a[i].shape))
        if not drv.close(drv.tr4(a), drv.tr4(R.a[i]), 1e-7):
            raise Violation('trajectory', '%s: archived tensor %d has trace %s, expected %s' % (what, i, drv.tr4(a), drv.tr4(R.a[i])))


def check_logz(got, R, what):
    got = np.array([complex(x) for x in to_np(got)]).real
    if len(got) != len(R.a):
        raise Violation('records', '%s: %d values after %d iterations' % (what, len(got), len(R.a) - 1))
    if not drv.close(got[:R.ok], R.logz()[:R.ok], 1e-8):
        raise Violation('trajectory', '%s: log Z per site %s, expected %s' % (what, got[:R.ok], R.logz()[:R.ok]))
    for i in range(len(R.a)):
        if R.exact[i] and R.full[i] is not None:
            want = np.log(drv.tr4(R.full[i])) / R.dof[i]
            if not abs(got[i] - want) < 1e-6 * max(1.0, abs(want)):
                raise Violation('not-exact', '%s: log Z per site after %d iterations is %s, exactly %s' % (what, i, got[i], want))


def advance(R, dirs, what):
    """One reference iteration in the direction the driver took."""
    d = dirs[len(R.a) - 1]
    t = R.trials()
    best = min(x[1] for x in t.values())
    if all(x[2] for x in t.values()) and R.safe and t[d][1] > best + 1e-9:
        raise Violation('trajectory', '%s: merged in direction %s with error %s, the smallest is %s' % (what, d, t[d][1], best))
    R.step(d, t[d])


def run(spec, sim):
    arg, a, dof = make(spec['site'])
    snap = ref.Snap([arg]) if not spec['site']['raw'] else None
    rawcopy = None if snap else np.array(to_np(arg))
    chiH, chiV = spec['chiH'], spec['chiV']
    h = ctl.HOTRG.HOTRG(arg, chiH=chiH, chiV=chiV)
    R = drv.RefHOTRG(a, chiH, chiH if chiV is None else chiV, dof)
    g = drv.Guard(sim, h, state, tokens, 'HOTRG')
    kept = []
    check_records(g.obj, R, spec, 'at the start', kept)

    def untouched(what):
        if snap:
            snap.check(what)
        elif not np.array_equal(rawcopy, to_np(arg)):
            raise Violation('input-modified', '%s: the array passed in changed' % what)
    for oi, op in enumerate(spec['ops']):
        k = op['op']
        what = 'step %d (%s)' % (oi, k)
        f = op.get('fault')
        if k == 'iterate':
            if len(R.a) > 6:
                continue
            done = False
            for rep in range(2 if f is not None and op['twice'] else (1 if f is not None else 0)):
                fr = dict(f, frac=(f['frac'] + 0.41 * rep) % 1.0)
                o, how = g.call(lambda x: x.iterate(), fr, what)
                sim.note(how, o.kind)
                sim.state(len(R.a), k, o.kind, sim.where)
                sim.expect_ok(o, how)
                if o.ok:
                    done = True
                    break
                check_records(g.obj, R, spec, how, kept)
            if not done:
                sim.expect_ok(sim.call(lambda: g.obj.iterate()), what)
            advance(R, list(g.obj.directChoices), what)
            sim.note(what, len(R.a), g.obj.directChoices[-1] if R.safe else '?')
            check_records(g.obj, R, spec, what, kept)
        elif k == 'logz':
            if f is not None:
                o, how = g.call(lambda x: x.logZDensity(), f, what, pure=True)
                sim.state(len(R.a), k, o.kind, sim.where)
                sim.expect_ok(o, how)
            o, how = g.call(lambda x: x.logZDensity(), None, what, pure=True)
            sim.expect_ok(o, how)
            check_logz(o.value, R, what)
            sim.note(what, ['%.6g' % float(x) for x in to_np(o.value)] if R.safe else len(R.a))
        elif k in ('trace', 'norm'):
            i = op['x'] % len(R.a)
            fn = (lambda x: x.pureTensorTrace(i)) if k == 'trace' else (lambda x: x.getNorm(i))
            o, how = g.call(fn, f, what, pure=True)
            if not o.ok:
                sim.expect_ok(o, how)
                o, how = g.call(fn, None, what, pure=True)
            sim.expect_ok(o, how)
            v = complex(o.value).real
            want = drv.tr4(R.a[i]) if k == 'trace' else R.norms[i]
            if i < R.ok and not drv.close(v, want, 1e-7):
                raise Violation('trajectory', '%s of iteration %d is %s, expected %s' % (k, i, v, want))
        else:
            t = g.obj.a.copy()
            n = len(R.a)
            fn = [lambda x: x.getNorm(n + op['x']), lambda x: x.impurityIterate([t], 0), lambda x: x.impurityIterate([t, t], n - 1 + op['x']),
                  lambda x: x.directedIterateTrial('x'), lambda x: x.pureTensorTrace(n + op['x'])][op['x'] % 5]
            o, how = g.call(fn, None, what, pure=True)
            sim.nontrivial = True
            if o.kind != 'raised':
                raise Violation('accepted', '%s: call %d with bad arguments was accepted' % (what, op['x'] % 5))
        untouched(what)
    if len(R.a) > 3:
        sim.nontrivial = True
    o, how = g.call(lambda x: x.logZDensity(), None, 'the end (logz)', pure=True)
    sim.expect_ok(o, how)
    check_logz(o.value, R, 'at the end')
    check_records(g.obj, R, spec, 'at the end', kept)
    sim.count('iterations_compared_with_reference', R.ok - 1)
    sim.count('iterations_too_close_to_a_tie', len(R.a) - R.ok)
    sim.count('exact_iterations', sum(R.exact) - 1)
    untouched('at the end')
