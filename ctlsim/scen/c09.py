"""C09: impurity moments driven by HOTRG, with failed and repeated steps, against numpy and the exact torus."""
import copy
import itertools
import math

import numpy as np

from .. import ctl, drv, ref
from ..core import Violation, to_np
from . import c08

RUNS = {'quick': 4000, 'thorough': 50000}
BATCH = 20
RULE = 'HOTRG driver plus one or two impurity networks on it, 1-3 impurity tensors; renormalisation iterations, impurity iterations, measurements and rejected calls, impurity steps stopped at backend calls and repeated. Non-trivial: at least one failed step or a rejected call.'
STATES = 'hash of (iterations of HOTRG, of the impurity network, operation, outcome, backend call that failed)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy'


def gen(rng, tier, i):
    site = c08.gen_tensor(rng)
    nets = [dict(n=rng.choice([1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6]), cut=rng.random() < 0.2, seed=rng.randrange(1 << 30), first=rng.random() < 0.7, shuffle=rng.random() < 0.5,
                 dof=rng.choice([1, 1, 2])) for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    nit = 0
    cap = 5 if tier == 'thorough' else 4
    for _ in range(rng.randint(3, 14)):
        k = rng.choice(['rg', 'imp', 'imp', 'imp', 'measure', 'measure', 'init', 'bad'])
        if k == 'rg':
            if nit >= cap:
                continue
            nit += 1
        ops.append(dict(op=k, net=rng.randrange(len(nets)), x=rng.randrange(8), twice=rng.random() < 0.3,
                        fault=c08.gen_fault(rng, 0.55) if k in ('imp', 'init', 'measure') else None))
    return dict(site=site, chiH=rng.choice([2, 3, 4, 5, 6, 9]), chiV=rng.choice([None, None, 4, 9]), nets=nets, ops=ops)


class World:
    pass


def state_of(n):
    def state(w):
        m = w.nets[n]
        d = dict(impurities=[drv.tens(t) for t in m.impurities], norms=[float(x) for x in m.norms],
                 archive=[[drv.tens(t) for t in l] for l in m.impurityArchive], iterateIdx=m.iterateIdx, initialized=m.initialized, highestOrder=m.highestOrder)
        d['rg'] = c08.state(w.h)
        return d
    return state


def tokens_of(n, what):
    def tokens(old, new, d, backup):
        m = backup.nets[n]
        st = state_of(n)
        inits = None
        if not old['initialized']:
            raw = old['impurities']
            m.initialize()
            inits = st(backup)
            if what == 'iterate' and drv.same(new, inits):
                return None                     # initialisation is a step of its own
            if not new['initialized']:
                if d and set(d) <= {'impurities', 'norms+1'}:
                    ok = all(drv.same(x, a) or drv.same(x, b) for x, a, b in zip(new['impurities'], raw, inits['impurities']))
                    if ok and ('norms+1' not in d or drv.close(new['norms'], inits['norms'])):
                        return ['impurities divided by the norm'] + (['norms+1'] if 'norms+1' in d else [])
                return ['%s changed otherwise' % k for k in d]
            old = inits
            d = drv.diff(inits, new)
        out = []
        div = st(backup)
        if what == 'iterate':
            norm = None
            try:
                m.iterate()
                div = st(backup)
                norm = div['norms'][-1]
            except Exception:
                return ['%s changed otherwise' % k for k in d]
            for k in d:
                if k == 'iterateIdx' and new[k] == old[k] + 1:
                    out.append('iterateIdx+1')
                elif k == 'norms+1' and drv.close(new['norms'], div['norms']):
                    out.append('norms+1')
                elif k == 'impurities' and len(new[k]) == len(div[k]):
                    r = []
                    for x, b in zip(new[k], div[k]):
                        if x[0] == b[0] and x[1].shape == b[1].shape and x[2] == b[2] and drv.close(x[1], b[1], 1e-12):
                            r.append('d')
                        elif x[0] == b[0] and x[1].shape == b[1].shape and x[2] == b[2] and drv.close(x[1], b[1] * norm, 1e-12):
                            r.append('u')
                        else:
                            r.append('?')
                    out.append('impurities changed otherwise' if '?' in r else 'the impurities of the next step')
                else:
                    out.append(k + ' changed otherwise')
        else:
            out = ['%s changed otherwise' % k for k in d]
        return sorted(out)
    return tokens


def compositions(k, n):
    if n == 1:
        yield (k,)
        return
    for j in range(k + 1):
        for r in compositions(k - j, n - 1):
            yield (j,) + r


def multinomial(parts):
    r = math.factorial(sum(parts))
    for p in parts:
        r //= math.factorial(p)
    return r


def exact_moments(site, imps, dirs):
    """Moments on the torus of 2**len(dirs) sites, averaged over positions, by summing over placements."""
    n = 1 << len(dirs)

    def block(ts):
        for d in dirs:
            ts = [drv.coarse(ts[i], ts[i + 1], d) for i in range(0, len(ts), 2)]
        return drv.tr4(ts[0])
    z = block([site] * n)
    return [sum(multinomial(p) * block([imps[k] for k in p]) for p in compositions(K, n)) / float(n) ** K / z for K in range(len(imps))]


class RefImp:
    def __init__(self, imps, R):
        self.m = [[x / R.norms[0] for x in imps]]
        self.R = R

    def step(self):
        i = len(self.m) - 1
        R, m = self.R, self.m[-1]
        out = []
        for k in range(len(m)):
            s = 0.0
            for j in range(k + 1):
                s = s + math.comb(k, j) / 2.0 ** k * drv.coarse(m[j], m[k - j], R.dirs[i], R.proj[i])
            out.append(s / R.norms[i + 1])
        self.m.append(out)

    def observables(self):
        return [[drv.tr4(x) / drv.tr4(self.R.a[i]) for x in l] for i, l in enumerate(self.m)]


def run(spec, sim):
    arg, a, dof = c08.make(spec['site'])
    chiV = spec['chiH'] if spec['chiV'] is None else spec['chiV']
    w = World()
    w.h = ctl.HOTRG.HOTRG(arg, chiH=spec['chiH'], chiV=spec['chiV'])
    w.nets = []
    R = drv.RefHOTRG(a, spec['chiH'], chiV, dof)
    refs, plain, snaps = [], [], []
    for ni, ns in enumerate(spec['nets']):
        arrs = [a if (k == 0 and ns['first']) else ref.rnd(ns['seed'] + k, a.shape, positive=(k == 0)) for k in range(ns['n'])]
        ts = []
        for k, x in enumerate(arrs):
            lab = list(spec['site']['labels'])
            if ns['shuffle']:
                lab = lab[k + 1:] + lab[:k + 1]
            p = ['uldr'.index(c) for c in lab]
            ts.append(ctl.Tensor(data=ref.host(np.transpose(x, p)), labels=lab, degreeOfFreedom=ns['dof']))
        order = max(1, ns['n'] - 1) if ns['cut'] else None
        lst = list(ts)
        net = ctl.impurity.ImpurityTensorNetwork(ts, order) if order else ctl.impurity.ImpurityTensorNetwork(ts)
        if len(lst) != len(ts) or any(x is not y for x, y in zip(lst, ts)):
            raise Violation('input-modified', 'the list of impurity tensors changed')
        snaps.append(ref.Snap(ts))
        net.setRG(w.h)
        w.nets.append(net)
        plain.append(arrs[:order] if order else arrs)
        refs.append(RefImp(plain[-1], R))
    inited = [False] * len(w.nets)
    kept = [[] for _ in w.nets]

    def records(w, what):
        for n, net in enumerate(w.nets):
            st = state_of(n)(w)
            done = len(refs[n].m) if inited[n] else 0
            if st['initialized'] != inited[n] or len(st['archive']) != done or len(st['norms']) != done or st['iterateIdx'] != max(0, done - 1):
                raise Violation('records', '%s: network %d completed %d steps but records %s' % (
                    what, n, done, dict(initialized=st['initialized'], archive=len(st['archive']), norms=len(st['norms']), iterateIdx=st['iterateIdx'])))
            for i in range(done):
                if i < len(kept[n]):
                    if not drv.same(kept[n][i], st['archive'][i]):
                        raise Violation('archive-changed', '%s: the impurity tensors of step %d changed after they were recorded' % (what, i))
                else:
                    kept[n].append(st['archive'][i])
                if i < R.ok and not drv.close(st['norms'][i], R.norms[i], 1e-7):
                    raise Violation('trajectory', '%s: norm %d is %s, expected %s' % (what, i, st['norms'][i], R.norms[i]))
                want_dof = spec['nets'][n]['dof'] * 2 ** i
                for k, t in enumerate(st['archive'][i]):
                    if sorted(t[0]) != sorted('uldr') or any(t[3]):
                        raise Violation('records', '%s: impurity tensor %d of step %d has legs %s' % (what, k, i, t[0]))
                    if t[2] != want_dof:
                        raise Violation('records', '%s: impurity tensor %d of step %d covers %s sites, expected %s' % (what, k, i, t[2], want_dof))
            snaps[n].check(what)

    def compare(n, obs, what):
        want = refs[n].observables() if inited[n] else []
        if len(obs) != len(want):
            raise Violation('records', '%s: %d rows of observables after %d steps' % (what, len(obs), len(want)))
        for i, row in enumerate(obs):
            if len(row) != len(want[i]):
                raise Violation('records', '%s: %d observables at step %d, expected %d' % (what, len(row), i, len(want[i])))
            got = np.array([complex(to_np(x)).real for x in row])
            if i < R.ok and not drv.close(got, np.array(want[i]), 1e-6):
                raise Violation('trajectory', '%s: observables of step %d are %s, expected %s' % (what, i, got, want[i]))
            if R.exact[i] and i <= 2:
                ex = np.array(exact_moments(a, plain[n], R.dirs[:i]))
                sim.count('exact_moments')
                if not np.all(np.abs(got - ex) <= 1e-5 * np.maximum(1.0, np.abs(ex))):
                    raise Violation('not-exact', '%s: observables of step %d are %s, exactly %s' % (what, i, got, ex))
        sim.note(what, len(obs))

    for oi, op in enumerate(spec['ops']):
        k, n, f = op['op'], op['net'], op.get('fault')
        what = 'step %d (%s)' % (oi, {'imp': 'iterate', 'init': 'initialize'}.get(k, k))
        pname = {'imp': 'iterate', 'init': 'initialize'}.get(k, k)
        if k == 'rg':
            if len(R.a) > 5:
                continue
            o = sim.call(lambda: w.h.iterate())
            sim.expect_ok(o, what)
            t = R.trials()
            d = w.h.directChoices[-1]
            R.step(d, t[d])
            sim.note(what, len(R.a))
        elif k in ('imp', 'init'):
            if k == 'init' and inited[n]:
                continue
            g = drv.Guard(sim, w, state_of(n), tokens_of(n, pname), 'ImpurityTensorNetwork')
            fn = (lambda x: x.nets[n].iterate()) if k == 'imp' else (lambda x: x.nets[n].initialize())
            fits = k == 'init' or len(R.a) > (len(refs[n].m) if inited[n] else 1)
            done = False
            reps = (2 if op['twice'] else 1) if f is not None else 0
            for rep in range(reps + 1):
                fr = None if rep == reps else dict(f, frac=(f['frac'] + 0.37 * rep) % 1.0)
                o, how = g.call(fn, fr, what, keep=not fits)
                w = g.obj
                sim.note(how, o.kind)
                sim.state(len(R.a), len(refs[n].m), k, o.kind, sim.where)
                if k == 'imp' and not inited[n] and w.nets[n].initialized:
                    inited[n] = True
                if o.ok:
                    if not fits:
                        raise Violation('accepted', '%s: iterated beyond the renormalisation' % how)
                    done = True
                    break
                if o.kind == 'raised':
                    sim.nontrivial = True
                    if fits:
                        sim.expect_ok(o, how)
                records(w, how)
            if done:
                if k == 'init':
                    inited[n] = True
                else:
                    refs[n].step()
        elif k == 'measure':
            g = drv.Guard(sim, w, state_of(n), tokens_of(n, pname), 'ImpurityTensorNetwork')
            o, how = g.call(lambda x: x.nets[n].measureObservables(), f, what, pure=True)
            if not o.ok:
                sim.expect_ok(o, how)
                o, how = g.call(lambda x: x.nets[n].measureObservables(), None, what, pure=True)
            sim.expect_ok(o, how)
            compare(n, o.value, what)
        else:
            # a network without renormalisation is rejected and stays usable
            m = ctl.impurity.ImpurityTensorNetwork([t.copy() for t in w.nets[n].impurities])
            b = [drv.tens(t) for t in m.impurities]
            o = sim.call(lambda: m.iterate() if op['x'] % 2 else m.initialize())
            sim.nontrivial = True
            if o.kind != 'raised':
                raise Violation('accepted', '%s: an impurity network without renormalisation was initialised' % what)
            if not drv.same(b, [drv.tens(t) for t in m.impurities]) or m.norms or m.impurityArchive or m.initialized:
                raise Violation('state-changed', '%s: rejected initialisation changed the network' % what)
        records(w, what)
    for n in range(len(w.nets)):
        # catch up with the renormalisation and compare everything
        while (len(refs[n].m) if inited[n] else 1) < len(R.a):
            o = sim.call(lambda: w.nets[n].iterate())
            sim.expect_ok(o, 'the end (iterate)')
            inited[n] = True
            refs[n].step()
        o = sim.call(lambda: w.nets[n].measureObservables())
        sim.expect_ok(o, 'the end (measure)')
        compare(n, o.value, 'at the end')
        records(w, 'at the end')
