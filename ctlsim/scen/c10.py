"""C10: square and triangle TRG trajectories under failed and repeated iterations, against numpy and exact tori."""
import numpy as np

from .. import ctl, drv, ref
from ..core import Violation, describe, to_np
from . import c08

RUNS = {'quick': 3000, 'thorough': 50000}
BATCH = 25
RULE = 'square TRG on a random positive or Ising tensor, or triangle TRG with a random weight; iterations and queries, many of them stopped at one of their backend calls and repeated. Non-trivial: at least one failed step or three iterations.'
STATES = 'hash of (driver, completed iterations, operation, outcome, backend call that failed)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy'


def gen(rng, tier, i):
    tri = rng.random() < 0.4
    ops = []
    n = 0
    cap = 7 if tier == 'thorough' else 5
    for _ in range(rng.randint(3, 14)):
        k = rng.choice(['iterate'] * 6 + ['logz', 'logz', 'logz', 'two'])
        if k == 'iterate':
            if n >= cap:
                continue
            n += 1
        if k == 'two' and tri:
            continue
        ops.append(dict(op=k, fault=c08.gen_fault(rng, 0.5 if k == 'iterate' else 0.3), twice=rng.random() < 0.3))
    return dict(tri=tri, alpha=round(10 ** rng.uniform(-1.5, 0.7), 5), site=c08.gen_tensor(rng), chi=rng.choice([2, 3, 4, 5, 6, 8, 9, 12, 16]), ops=ops)


def state_square(h):
    return dict(a=drv.tens(h.a), b=drv.tens(h.b), aNorms=[float(x) for x in h.aNorms], errors=[tuple(float(y) for y in x) for x in h.errors],
                aArchive=[drv.tens(t) for t in h.aArchive], chi=h.chi)


def state_tri(h):
    return dict(a=drv.tens(h.a), b=drv.tens(h.b), aNorms=[float(x) for x in h.aNorms], bNorms=[float(x) for x in h.bNorms], errors=[float(x) for x in h.errors],
                aArchive=[drv.tens(t) for t in h.aArchive], bArchive=[drv.tens(t) for t in h.bArchive], chi=h.chi, alpha=h.alpha)


def which(t, old, nxt, norm, tags=''):
    """Name of the tensor found: the old one, the old one with tags, or the next one."""
    if drv.same(t, old):
        return None
    if tags and t[0] == tuple('%s-%s' % (tags, x) for x in old[0]) and drv.same(t[1:3], old[1:3]):
        return 'tagged' + (', linked' if any(t[3]) else '')
    n = float(np.linalg.norm(t[1]))
    if t[0] == nxt[0] and t[1].shape == nxt[1].shape:
        if abs(n - 1.0) < 1e-9:
            return 'normalised next'
        if abs(n - norm) <= 1e-9 * n:
            return 'next'
    return 'changed otherwise'


def tokens_square(old, new, d, backup):
    backup.iterate()
    nxt = state_square(backup)
    out = []
    for k in d:
        if k in 'ab':
            out.append('%s: %s' % (k, which(new[k], old[k], nxt[k], nxt['aNorms'][-1])))
        elif k == 'aNorms+1' and drv.close(new['aNorms'], nxt['aNorms']):
            out.append(k)
        else:
            out.append(k + ' changed otherwise')
    return sorted(out)


def tokens_tri(old, new, d, backup):
    backup.iterate()
    nxt = state_tri(backup)
    out = []
    for k in d:
        if k in 'ab':
            out.append('%s: %s' % (k, which(new[k], old[k], nxt[k], nxt[k + 'Norms'][-1], k)))
        elif k in ('aNorms+1', 'bNorms+1', 'errors+1') and drv.close(new[k[:-2]], nxt[k[:-2]]):
            out.append(k)
        elif k == 'aArchive+1' and abs(float(np.linalg.norm(new['aArchive'][-1][1])) - 1.0) < 1e-9:
            out.append(k)
        else:
            out.append(k + ' changed otherwise')
    return sorted(out)


def logz_check(got, want, ok, what):
    got = np.array([complex(to_np(x)).real for x in got])
    if len(got) != len(want):
        raise Violation('records', '%s: %d values after %d iterations' % (what, len(got), len(want) - 1))
    for i in range(ok):
        if np.isnan(want[i]):
            continue
        if not abs(got[i] - want[i]) <= 1e-8 * max(1.0, abs(want[i])):
            raise Violation('trajectory', '%s: log Z per site after %d iterations is %s, expected %s' % (what, i, got[i], want[i]))


def run(spec, sim):
    (tri if spec['tri'] else square)(spec, sim)


def drive(spec, sim, g, R, check, advance, logz, untouched, name, two=None):
    check(g.obj, 'at the start')
    for oi, op in enumerate(spec['ops']):
        k, f = op['op'], op.get('fault')
        what = 'step %d (%s)' % (oi, k)
        if k == 'iterate':
            reps = (2 if op['twice'] else 1) if f is not None else 0
            for rep in range(reps + 1):
                fr = None if rep == reps else dict(f, frac=(f['frac'] + 0.37 * rep) % 1.0)
                o, how = g.call(lambda x: x.iterate(), fr, what)
                sim.note(how, o.kind)
                sim.state(name, len(R.a), k, o.kind, sim.where)
                sim.expect_ok(o, how)
                if o.ok:
                    break
                check(g.obj, how)
            advance()
        elif k == 'logz':
            o, how = g.call(lambda x: x.logZDensity(), f, what, pure=True)
            sim.state(name, len(R.a), k, o.kind, sim.where)
            sim.expect_ok(o, how)
            if not o.ok:
                o, how = g.call(lambda x: x.logZDensity(), None, what, pure=True)
                sim.expect_ok(o, how)
            logz(o.value, what)
            sim.note(what, len(o.value))
        elif two is not None:
            two(what)
        check(g.obj, what)
        untouched(what)
    if len(R.a) > 3:
        sim.nontrivial = True
    o, how = g.call(lambda x: x.logZDensity(), None, 'the end (logz)', pure=True)
    sim.expect_ok(o, how)
    logz(o.value, 'at the end')
    untouched('at the end')
    sim.count('iterations_compared_with_reference', R.ok - 1)
    sim.count('iterations_too_close_to_a_tie', len(R.a) - R.ok)


def archive_checks(arch, legs, dofs, kept, n, what):
    for i in range(n):
        lab, arr, dof, linked = arch[i]
        if sorted(lab) != sorted(legs) or any(linked):
            raise Violation('records', '%s: archived tensor %d has legs %s%s' % (what, i, lab, ', linked' if any(linked) else ''))
        if dof != dofs[i]:
            raise Violation('records', '%s: archived tensor %d covers %s sites, expected %s' % (what, i, dof, dofs[i]))
        if i < len(kept):
            if not drv.same(kept[i], arch[i]):
                raise Violation('archive-changed', '%s: archived tensor %d changed after it was recorded' % (what, i))
        else:
            kept.append(arch[i])


def square(spec, sim):
    arg, a, dof = c08.make(spec['site'])
    isT = not spec['site']['raw']
    snap = ref.Snap([arg]) if isT else None
    rawcopy = None if isT else np.array(to_np(arg))
    h = ctl.TRG.SquareTRG(arg, chi=spec['chi'])
    R = drv.RefSquare(a, spec['chi'], dof)
    g = drv.Guard(sim, h, state_square, tokens_square, 'SquareTRG')
    kept = []

    def untouched(what):
        if snap:
            snap.check(what)
        elif not np.array_equal(rawcopy, to_np(arg)):
            raise Violation('input-modified', '%s: the array passed in changed' % what)

    def check(h, what):
        n = len(R.a)
        st = state_square(h)
        if not (len(st['aNorms']) == len(st['aArchive']) == n and len(st['errors']) == n - 1):
            raise Violation('records', '%s: %d completed iterations, but %s' % (what, n - 1, {k: len(st[k]) for k in ('aNorms', 'aArchive', 'errors')}))
        archive_checks(st['aArchive'], 'uldr', R.dof, kept, n, what)
        if not drv.same(st['a'], st['b']):
            raise Violation('records', '%s: the two tensors of the network differ' % what)
        m = R.ok
        if not drv.close(st['aNorms'][:m], R.norms[:m], 1e-7):
            raise Violation('trajectory', '%s: norms %s, expected %s' % (what, st['aNorms'][:m], R.norms[:m]))
        e, w = np.array(st['errors'][:m - 1]).reshape(-1, 2), np.array(R.errors[:m - 1]).reshape(-1, 2)
        if not np.all(np.abs(e - w) < 1e-8):
            raise Violation('trajectory', '%s: errors %s, expected %s' % (what, e.tolist(), w.tolist()))
        for i in range(m):
            lab, arr = st['aArchive'][i][:2]
            x = np.transpose(arr, [lab.index(c) for c in 'uldr'])
            if x.shape != R.a[i].shape or not drv.close(drv.tr4(x), drv.tr4(R.a[i]), 1e-7):
                raise Violation('trajectory', '%s: archived tensor %d has shape %s and trace %s, expected %s and %s' % (
                    what, i, x.shape, drv.tr4(x), R.a[i].shape, drv.tr4(R.a[i])))

    def logz(got, what):
        want = R.logz()
        logz_check(to_np(got), want, R.ok, what)
        got = np.array([complex(x).real for x in to_np(got)])
        ex = []
        v, l = a.shape[0], a.shape[1]
        if v == l and len(got) > 1 and R.exact[1]:
            ex.append((1, np.log(float(np.einsum('abcd,cdab->', a, a))) / (2 * dof)))
        if v == l and len(got) > 2 and R.exact[2]:
            ex.append((2, np.log(drv.tr4(drv.coarse(*[drv.coarse(a, a, 'l')] * 2, 'u'))) / (4 * dof)))
        for i, w in [(0, np.log(drv.tr4(a)) / dof)] + ex:
            sim.count('exact_values')
            if not abs(got[i] - w) < 1e-7 * max(1.0, abs(w)):
                raise Violation('not-exact', '%s: log Z per site after %d iterations is %s, exactly %s' % (what, i, got[i], w))

    def two(what):
        t1, t2 = c08.make(dict(spec['site'], raw=False))[0], c08.make(dict(spec['site'], raw=False))[0]
        o = sim.call(lambda: ctl.TRG.SquareTRG(t1, t2, chi=spec['chi']))
        if o.kind == 'raised':
            sim.finding('constructor', 'SquareTRG(a, b) raises %s' % describe(o.exc))

    drive(spec, sim, g, R, check, R.step, logz, untouched, 'square', two)


def tri(spec, sim):
    h = ctl.TRG.TriangleTRG(spec['alpha'], chi=spec['chi'])
    R = drv.RefTriangle(spec['alpha'], spec['chi'])
    g = drv.Guard(sim, h, state_tri, tokens_tri, 'TriangleTRG')
    ka, kb = [], []
    a0 = R.a[0] * R.an[0]

    def check(h, what):
        n = len(R.a)
        st = state_tri(h)
        ls = {k: len(st[k]) for k in ('aNorms', 'bNorms', 'aArchive', 'bArchive', 'errors')}
        if ls != dict(aNorms=n, bNorms=n, aArchive=n, bArchive=n, errors=n - 1):
            raise Violation('records', '%s: %d completed iterations, but %s' % (what, n - 1, ls))
        archive_checks(st['aArchive'], '123', R.dof, ka, n, what)
        archive_checks(st['bArchive'], '123', R.dof, kb, n, what)
        m = R.ok
        for x, w, nm in ((st['aNorms'], R.an, 'norms of a'), (st['bNorms'], R.bn, 'norms of b')):
            if not drv.close(x[:m], w[:m], 1e-7):
                raise Violation('trajectory', '%s: %s %s, expected %s' % (what, nm, x[:m], w[:m]))
        if not np.all(np.abs(np.array(st['errors'][:m - 1]) - np.array(R.errors[:m - 1])) < 1e-8):
            raise Violation('trajectory', '%s: errors %s, expected %s' % (what, st['errors'][:m - 1], R.errors[:m - 1]))

    def logz(got, what):
        want = [x for x in R.logz()]
        for i in range(len(want)):
            t = float(np.einsum('abc,abc->', R.a[i], R.b[i]))
            if t < 1e-6:
                want[i] = np.nan        # the two-site closure vanishes: no digits to compare
        logz_check(got, want, R.ok, what)
        v = np.array([complex(to_np(x)).real for x in got])
        ex = [(0, np.log(float(np.einsum('abc,abc->', a0, a0))))]
        if spec['chi'] >= 4 and len(v) > 1:
            m = np.einsum('xac,xbd->abcd', a0, a0)
            ex.append((1, np.log(float(np.einsum('abxy,cazx,bcyz->', m, m, m))) / 9.0 + np.log(R.an[0] * R.bn[0]) * (1.0 - 3.0 / 9.0)))
        for i, w in ex:
            sim.count('exact_values')
            if not (abs(v[i] - w) < 1e-7 * max(1.0, abs(w)) or np.isnan(w)):
                raise Violation('not-exact', '%s: log Z per site after %d iterations is %s, exactly %s' % (what, i, v[i], w))

    drive(spec, sim, g, R, check, R.step, logz, lambda what: None, 'triangle')
