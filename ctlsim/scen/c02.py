"""C02: several threads contract one finite tensor network with their own inputs."""
from .. import ftnlib, ref, sched
from ..core import Violation, describe, sig

RUNS = {'quick': 2600, 'thorough': 40000}
BATCH = 20
RULE = 'Random network description shared by 2-4 threads, each with 1-3 contract calls on its own dense/diagonal tensors of its own dimensions, or on tensors that other threads pass as well. Non-trivial: at least one pre-emptive switch.'
STATES = 'hash of (task order of switches, outcome of each call)'
REAL = 'all CTL code, real Python threads (one released at a time), numpy kernels'
STUBS = 'thread scheduler, threading.Lock/RLock, backend module proxy'


def gen(rng, tier, i):
    d = ftnlib.gen_desc(rng, nmax=5 if tier == 'thorough' else 4)
    base = ftnlib.gen_input(rng, d)
    tasks = []
    share = rng.choice([0, 0, 0, 0.5, 1])         # threads that pass the very same tensors
    for _ in range(rng.choice([2, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.randint(1, 3)):
            inp = ftnlib.gen_input(rng, d, like=base if rng.random() < 0.4 else None)
            op = dict(inp=inp, plain=rng.random() < 0.5)
            if rng.random() < share:
                op.update(inp=base, same=True)
            if rng.random() < 0.12:
                op['fault'] = dict(kind=rng.choice(['oom', 'device']), at=rng.randrange(0, 12))
            ops.append(op)
        tasks.append(dict(ops=ops))
    return dict(desc=d, warm=rng.random() < 0.5, tasks=tasks, base=base, sched=sched.random_conf(rng, opcode=0.08))


def check_res(t, d, inp, what):
    ref.check_struct([t], what)
    ref.same_value(ref.t_value(t), ftnlib.expect(d, inp), what)


def run(spec, sim):
    d = spec['desc']
    f = ftnlib.build_ftn(d)
    if spec['warm']:
        o = sim.expect_ok(sim.call(lambda: ftnlib.call(f, d, spec['base'], False)), 'first contraction')
        check_res(o.value, d, spec['base'], 'first contraction')
    common = ftnlib.tensors(d, spec['base'])
    ins = [[common if op.get('same') else ftnlib.tensors(d, op['inp']) for op in t['ops']] for t in spec['tasks']]
    snaps = [[ref.Snap(list(x.values())) for x in row] for row in ins]
    res = [[None] * len(t['ops']) for t in spec['tasks']]
    s = sched.Sched(sim, spec['sched'])

    def mk(ti):
        def body():
            for oi, op in enumerate(spec['tasks'][ti]['ops']):
                res[ti][oi] = s.op(lambda: ftnlib.call(f, d, op['inp'], op['plain'], ins[ti][oi]), op.get('fault'))
        return body
    try:
        s.run([mk(i) for i in range(len(spec['tasks']))])
    finally:
        sim.switch_log = s.switches
    sim.note('order', s.order[:60])
    for ti, task in enumerate(spec['tasks']):
        for oi, op in enumerate(task['ops']):
            o = res[ti][oi]
            what = 'thread %d call %d' % (ti, oi)
            sim.note(what, o.kind, sig(o.value.a) if o.ok else '')
            sim.state(o.kind, sig(o.value.a) if o.ok else '', s.order[:8])
            if o.kind == 'raised':
                raise Violation('exception', '%s raised %s' % (what, describe(o.exc)))
            snaps[ti][oi].check(what)
            if o.ok:
                check_res(o.value, d, op['inp'], what)
    for ti, task in enumerate(spec['tasks']):
        for oi, op in enumerate(task['ops']):
            what = 'call %d of thread %d again afterwards' % (oi, ti)
            o = sim.expect_ok(sim.call(lambda: ftnlib.call(f, d, op['inp'], op['plain'], ins[ti][oi])), what)
            check_res(o.value, d, op['inp'], what)
