"""C15: histories of backend switches with workloads and failures under each; only the selected backend may be used."""
import json
import random
import sys

import numpy as np

from .. import ctl, ftnlib, progs, xp
from ..core import Violation

RUNS = {'quick': 2500, 'thorough': 40000}
BATCH = 20
RULE = 'a history of switches between two simulated host backends, two simulated device backends and numpy itself, with random programs, networks kept across switches and injected backend failures under each; calls received by every backend counted, types of all result arrays checked, values compared with the first backend. Non-trivial: at least one switch.'
STATES = 'hash of (backend kinds before and now, program, outcome, backend call that failed)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'host and device backend modules'

KINDS = ['host0', 'host1', 'dev0', 'dev1', 'numpy']


def gen(rng, tier, i):
    kinds = [k for k, w in progs.WEIGHTS.items() if k not in ('lists', 'text', 'names') for _ in range(w)]
    ops = []
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        if r < 0.35:
            ops.append(dict(op='switch', to=rng.choice(KINDS)))
        elif r < 0.8:
            f = dict(kind=rng.choice(['oom', 'device', 'kbd', 'linalg']), frac=rng.random()) if rng.random() < 0.3 else None
            ops.append(dict(op='prog', kind=rng.choice(kinds), seed=rng.randrange(1 << 30), fault=f))
        else:
            f = dict(kind=rng.choice(['oom', 'device', 'kbd']), frac=rng.random()) if rng.random() < 0.3 else None
            ops.append(dict(op=rng.choice(['ftn', 'ftn', 'plan']), seed=rng.randrange(1 << 30), fault=f))
    return dict(first=rng.choice(KINDS), desc=ftnlib.gen_desc(rng, nmax=4), ops=ops)


SEEN = {}


class direct_numpy:
    """Notes calls of numpy by the code under test that go past the selected backend."""

    def __enter__(self):
        if 'w' not in SEEN:
            SEEN['w'] = xp.watch_numpy([m for n, m in sorted(sys.modules.items()) if m is not None and n.split('.')[0] == 'CTL'])
        sys.modules['numpy'] = SEEN['w']
        xp.DIRECT = []
        return xp.DIRECT

    def __exit__(self, *a):
        sys.modules['numpy'] = np
        xp.DIRECT = None


class Watch:
    """Arrays in results must be the selected backend's own."""

    def __init__(self, bk, what):
        self.bk, self.what = bk, what

    def __call__(self, x):
        bk = self.bk
        if bk is np:
            bad = isinstance(x, xp.DevArray) or isinstance(x, xp.SimArray)
        elif bk.device:
            bad = isinstance(x, np.ndarray) or isinstance(x, xp.DevArray) and x._bk is not bk
        else:
            bad = isinstance(x, xp.DevArray) or isinstance(x, np.ndarray) and not (isinstance(x, xp.SimArray) and x._bk is bk)
        if bad:
            raise Violation('foreign-array', '%s: the result holds a %s of %s' % (self.what, type(x).__name__, getattr(getattr(x, '_bk', None), 'tag', 'numpy')))


def by_label(t):
    """A result with its legs in the order of their labels: the order of legs may depend on the plan kept."""
    from .. import ref
    progs.see(t)
    lab, a = ref.t_value(t)
    w, progs.WATCH = progs.WATCH, None
    try:
        return [list(lab), progs.see(np.asarray(a, dtype=complex))]
    finally:
        progs.WATCH = w


def run(spec, sim):
    pool = dict(host0=xp.HostXP('host0'), host1=xp.HostXP('host1'), dev0=xp.DeviceXP('dev0'), dev1=xp.DeviceXP('dev1'), numpy=np)
    refbk = xp.HostXP('reference')
    sims = [b for b in pool.values() if b is not np] + [refbk, sim.host]
    d = spec['desc']
    net = ftnlib.build_ftn(d)           # holds no data: may be kept across switches
    tens = None                         # shape-only network kept across switches
    cur, prev = spec['first'], None
    ctl.setXP(pool[cur])

    def reference(fn):
        ctl.setXP(refbk)
        old = progs.WATCH
        progs.WATCH = None
        try:
            return json.loads(json.dumps(fn()))
        finally:
            ctl.setXP(pool[cur])
            progs.WATCH = old

    for oi, op in enumerate(spec['ops']):
        what = 'step %d (%s, backend %s)' % (oi, op['op'], cur)
        if op['op'] == 'switch':
            if op['to'] != cur:
                sim.nontrivial = True
            prev, cur = cur, op['to']
            ctl.setXP(pool[cur])
            if ctl.xplib.xp is not pool[cur]:
                raise Violation('not-selected', '%s: setXP left another backend selected' % what)
            sim.note(what, op['to'])
            continue
        bk = pool[cur]
        if op['op'] == 'prog':
            what = 'step %d (program %s, backend %s)' % (oi, op['kind'], cur)

            def once():
                np.random.seed(op['seed'] % (2 ** 32))
                random.seed(op['seed'])
                return progs.see(progs.PROGS[op['kind']](random.Random('prog/%s/%s' % (op['kind'], op['seed']))))
        elif op['op'] == 'ftn':
            inp = ftnlib.gen_input(random.Random(op['seed']), d)

            def once():
                return by_label(ftnlib.call(net, d, inp, op['seed'] % 2 == 0))
        else:
            if tens is None:
                from .. import ref
                with_net = ref.gen_net(random.Random(op['seed']), nmax=4, diag=0.3)
                ts = ref.build(with_net)
                tens = ctl.optimalContract.copyTensorList(ts, tensorLikeFlag=True)

            def once():
                oc = ctl.optimalContract
                return progs.see([oc.generateOptimalSequence(tens), oc.generateGreedySequence(tens), oc.contractAndCostWithSequence(tens, outProductWarning=False)])
        if op['op'] == 'ftn':
            want = reference(lambda: by_label(ftnlib.call(ftnlib.build_ftn(d), d, inp, op['seed'] % 2 == 0)))
        else:
            try:
                want = reference(once)
            except Exception as e:
                want = ['raised', type(e).__name__]
        f = op['fault'] if bk is not np else None
        before = [b.ncalls for b in sims]
        direct = 0 if bk is np else getattr(bk, 'direct', 0)
        alien = 0 if bk is np else bk.alien
        progs.WATCH = Watch(bk, what)
        try:
            for rep in range(2):
                with direct_numpy() as calls:
                    o = sim.call(once, f if rep == 0 else None, once if op['op'] != 'ftn' else (lambda: ftnlib.call(ftnlib.build_ftn(d), d, inp, op['seed'] % 2 == 0)))
                if calls and bk is not np:
                    raise Violation('bypassed', '%s: numpy.%s was called directly' % (what, calls[0]))
                if o.kind != 'fault':
                    break
        finally:
            progs.WATCH = None
        for b, n in zip(sims, before):
            if b is not bk and b.ncalls != n:
                raise Violation('other-backend', '%s: %d calls went to backend %s' % (what, b.ncalls - n, b.tag))
        if bk is not np and bk.alien != alien:
            raise Violation('foreign-array', '%s: an array of another backend, or of the host, was passed to it' % what)
        if bk is not np and getattr(bk, 'direct', 0) != direct:
            raise Violation('bypassed', '%s: numpy was called directly on its arrays' % what)
        if ctl.xplib.xp is not bk:
            raise Violation('not-selected', '%s: another backend is selected afterwards' % what)
        sim.note(what, op.get('kind', ''), o.kind)
        sim.state(cur, prev, op['op'], op.get('kind'), o.kind, sim.where)
        sim.count('steps_on_' + cur.rstrip('01'))
        if o.kind == 'raised':
            if want[0] != 'raised' or type(o.exc).__name__ != want[1]:
                sim.expect_ok(o, what)
            continue
        if o.ok:
            if want and want[0] == 'raised':
                raise Violation('backend-difference', '%s: succeeded, but raised %s under the reference backend' % (what, want[1]))
            dd = progs.differ(want, json.loads(json.dumps(o.value)))
            if dd:
                raise Violation('backend-difference', '%s: result differs from the reference backend at %s' % (what, dd))
