"""C11: CTMRG queries and iterations in any order, with failures, against numpy CTMRG and exact open lattices."""
import numpy as np

from .. import ctl, drv, ref
from ..core import Violation, to_np
from . import c08

RUNS = {'quick': 900, 'thorough': 20000}
BATCH = 20
RULE = 'CTMRG on a reflection-symmetric random or Ising tensor; queries of lattice sizes in random order, extra iterations and rejected constructions, many of them stopped at a backend call and repeated. Non-trivial: at least one failed step or three queries.'
STATES = 'hash of (recorded steps, operation, lattice size, outcome, backend call that failed)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy'
NAMES = ('corner', 'hEdge', 'vEdge')


def gen(rng, tier, i):
    site = c08.gen_tensor(rng)
    site['raw'] = False
    top = 11 if tier == 'thorough' else 9
    ops = []
    odd = rng.random() < 0.35          # odd sizes need the costly nine-tensor plan
    for _ in range(rng.randint(3, 12)):
        k = rng.choice(['getZ'] * 6 + ['iterate', 'iterate', 'bad'])
        ops.append(dict(op=k, L=rng.randint(1, top) if odd else rng.choice([1] + list(range(2, top, 2)) * 2), x=rng.randrange(8), fault=c08.gen_fault(rng, 0.5), twice=rng.random() < 0.3))
    return dict(site=site, chi=rng.choice([2, 3, 4, 5, 6, 8, 9, 16]), mixed=rng.random() < 0.1, ops=ops)


def state(h):
    return dict(tensors={k: drv.tens(h.tensors[k]) for k in NAMES}, logScale={k: float(h.logScale[k]) for k in NAMES},
                corner=[(drv.tens(t), float(x)) for t, x in h.records['corner']], hEdge=[(drv.tens(t), float(x)) for t, x in h.records['hEdge']],
                vEdge=[(drv.tens(t), float(x)) for t, x in h.records['vEdge']], errors=[float(x) for x in h.errors], chi=h.chi, a=drv.tens(h.a))


def fingerprint(st):
    """What a state holds, up to the choice of basis on the inner legs."""
    def f(t, x):
        return [t[1].shape, float(np.linalg.norm(t[1])), float(x)]
    d = dict(tensors=[f(st['tensors'][k], st['logScale'][k]) for k in NAMES], errors=st['errors'])
    for k in NAMES:
        d[k] = [f(t, x) for t, x in st[k]]
    return d


def like(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(like(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return abs(a - b) <= 1e-7 * max(1.0, abs(b))
    return a == b


def tokens(old, new, d, backup):
    """None: some completed iterations and nothing else."""
    for k in NAMES:
        if not drv.same(old[k], new[k][:len(old[k])]):
            return ['records of %s changed' % k]
    if not drv.same(old['a'], new['a']) or old['chi'] != new['chi']:
        return ['the tensor or chi changed']
    n = fingerprint(new)
    for _ in range(16):
        w = fingerprint(state(backup))
        if like(n['tensors'], w['tensors']) and like(n['errors'], w['errors']):
            extra = []
            for k in NAMES:
                if like(n[k], w[k]):
                    continue
                i = NAMES.index(k)
                if len(n[k]) == len(w[k]) + 1 and like(n[k][:-1], w[k]) and like(n[k][-1], w['tensors'][i]):
                    extra.append(k + '+1')
                else:
                    extra.append('records of %s changed otherwise' % k)
            return sorted(extra) or None
        backup.iterate()
    return ['changed otherwise: %s' % ', '.join(d)]


def run(spec, sim):
    ts = spec['site']
    a = c08.site(ts)
    if spec['mixed']:
        a = a * np.where(ref.rnd(ts['seed'] + 1, a.shape) > -0.6, 1.0, -1.0)
    a = a + np.transpose(a, (2, 1, 0, 3))
    a = a + np.transpose(a, (0, 3, 2, 1))
    p = ['uldr'.index(x) for x in ts['labels']]
    arg = ctl.Tensor(data=ref.host(np.transpose(a, p)), labels=list(ts['labels']), degreeOfFreedom=ts['dof'])
    snap = ref.Snap([arg])
    h = ctl.CTMRG.CTMRG(arg, chi=spec['chi'])
    R = drv.RefCTMRG(a, spec['chi'])
    g = drv.Guard(sim, h, state, tokens, 'CTMRG')
    first, exact, kept = {}, {}, {k: [] for k in NAMES}
    asked = 0

    def check(h, what):
        st = state(h)
        n = len(st['corner'])
        if len(st['hEdge']) != n or len(st['vEdge']) != n or len(st['errors']) != n + 1:
            raise Violation('records', '%s: records of different lengths %s' % (what, {k: len(st[k]) for k in NAMES + ('errors',)}))
        while len(R.states) < n + 1:
            R.step()
        for k in NAMES:
            for i, x in enumerate(st[k]):
                if i < len(kept[k]):
                    if not drv.same(kept[k][i], x):
                        raise Violation('archive-changed', '%s: the %s of step %d changed after it was recorded' % (what, k, i))
                else:
                    kept[k].append(x)
        for i in range(n + 1):
            if not R.oks[i]:
                break
            if abs(st['errors'][i] - R.errors[i]) > 1e-8:
                raise Violation('trajectory', '%s: truncation error of step %d is %s, expected %s' % (what, i, st['errors'][i], R.errors[i]))
            for ki, k in enumerate(NAMES):
                t, x = st[k][i] if i < n else (st['tensors'][k], st['logScale'][k])
                w = R.states[i][ki]
                if t[1].ndim != w.ndim and t[1].ndim != 1:
                    raise Violation('trajectory', '%s: %s of step %d has %d legs' % (what, k, i, t[1].ndim))
                if abs(float(np.linalg.norm(t[1])) - float(np.linalg.norm(w))) > 1e-7 * float(np.linalg.norm(w)) or abs(x - R.states[i][ki + 3]) > 1e-7 * max(1.0, abs(x)):
                    raise Violation('trajectory', '%s: %s of step %d has norm %s and scale %s, expected %s and %s' % (
                        what, k, i, float(np.linalg.norm(t[1])), x, float(np.linalg.norm(w)), R.states[i][ki + 3]))
        snap.check(what)

    def value(L, got, what):
        nonlocal asked
        asked += 1
        z = complex(to_np(got)).real
        if L in first and not abs(first[L] - z) <= 1e-9 * abs(first[L]):
            raise Violation('history', '%s: Z(%d) is %s, earlier %s' % (what, L, z, first[L]))
        first.setdefault(L, z)
        if spec['mixed'] and L > 4:
            return
        want = R.getz(L)
        i = max(0, L // 2 - 1)
        if L == 1 or R.oks[i]:
            sim.count('compared_with_reference')
            if not abs(z - want) <= 1e-6 * abs(want):
                raise Violation('trajectory', '%s: Z(%d) is %s, expected %s' % (what, L, z, want))
        if (L == 1 or R.exacts[i]) and a.shape[0] ** L * a.shape[1] <= 5000:
            if L not in exact:
                exact[L] = drv.open_lattice(a, L)
            sim.count('compared_with_exact')
            if not abs(z - exact[L]) <= 1e-6 * abs(exact[L]):
                raise Violation('not-exact', '%s: Z(%d) is %s, exactly %s' % (what, L, z, exact[L]))
        sim.note(what, L, '%.6e' % z if (L == 1 or R.oks[i]) else '')

    check(g.obj, 'at the start')
    for oi, op in enumerate(spec['ops']):
        k, f, L = op['op'], op.get('fault'), op['L']
        what = 'step %d (%s)' % (oi, k)
        if k == 'bad':
            bad = ctl.Tensor(data=ref.host(np.ones((2, 2, 2))), labels=['l', 'r', 'u']) if op['x'] % 2 else ctl.Tensor(data=ref.host(np.ones((2, 2, 2, 2))), labels=['l', 'r', 'u', 'x'])
            s2 = ref.Snap([bad])
            o = sim.call(lambda: ctl.CTMRG.CTMRG(bad, chi=2))
            if o.kind != 'raised':
                raise Violation('accepted', '%s: a tensor with legs %s was accepted' % (what, bad.labels))
            s2.check(what)
            continue
        if k == 'iterate' and len(g.obj.records['corner']) > 6:
            continue
        fn = (lambda x: x.iterate()) if k == 'iterate' else (lambda x: x.getZ(L))
        n0 = len(g.obj.records['corner'])
        reps = (2 if op['twice'] else 1) if f is not None else 0
        for rep in range(reps + 1):
            fr = None if rep == reps else dict(f, frac=(f['frac'] + 0.37 * rep) % 1.0)
            o, how = g.call(fn, fr, what)
            sim.note(how, o.kind)
            sim.state(len(g.obj.records['corner']), k, L if k == 'getZ' else 0, o.kind, sim.where)
            sim.expect_ok(o, how)
            check(g.obj, how)
            if o.ok:
                break
        n1 = len(g.obj.records['corner'])
        want = n0 + 1 if k == 'iterate' else max(n0, L // 2 - 1)
        if k == 'iterate' and n1 < want or k == 'getZ' and n1 != want:
            raise Violation('records', '%s%s: %d steps recorded before, %d after' % (what, ' of size %d' % L if k == 'getZ' else '', n0, n1))
        if k == 'getZ':
            value(L, o.value, what)
    if asked > 2:
        sim.nontrivial = True
    for L in sorted(first, reverse=True):
        o, how = g.call(lambda x: x.getZ(L), None, 'the end (getZ)', pure=True)
        sim.expect_ok(o, how)
        value(L, o.value, 'at the end')
    snap.check('at the end')
