"""C14: the same programs under other string-hash seeds and other object layouts."""
import json
import os
import subprocess
import sys

from .. import progs
from ..core import Violation, HarnessError

RUNS = {'quick': 220, 'thorough': 4000}
BATCH = 5
RULE = 'a batch of random programs over the public interface, run under several simulated object layouts (object hashes) in this process and in a fresh interpreter with another string-hash seed; everything visible in the results compared. Non-trivial: always.'
STATES = 'hash of (program, size of its result)'
REAL = 'all CTL code, numpy; other interpreters run the real hash randomisation'
STUBS = 'object hashes (addresses), string-hash seed, random source, backend module proxy in this process'

MULTS = [1, 0x7fffffffffff, 0x9E3779B97F4A7C15 >> 17, 2654435761, 8, 1 << 20, 0]


def gen(rng, tier, i):
    kinds = [k for k, w in progs.WEIGHTS.items() for _ in range(w)]
    clients = [dict(kind=rng.choice(kinds), seed=rng.randrange(1 << 30)) for _ in range(14)]
    layouts = [[rng.choice(MULTS), rng.randrange(1 << 16)] for _ in range(3)]
    return dict(clients=clients, layouts=layouts, hashseed=rng.randrange(1, 1 << 32), other=[rng.choice(MULTS), rng.randrange(1 << 16)])


def fresh(spec):
    env = dict(os.environ, PYTHONHASHSEED=str(spec['hashseed']))
    job = json.dumps(dict(progs=[[c['kind'], c['seed']] for c in spec['clients']], mult=spec['other'][0], add=spec['other'][1]))
    p = subprocess.run([sys.executable, '-m', 'ctlsim.progs'], input=job.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                       cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    if p.returncode:
        raise HarnessError('child: ' + p.stderr.decode()[-1500:])
    return json.loads(p.stdout.decode())


def run(spec, sim):
    sim.nontrivial = True
    cs = spec['clients']
    if not cs:
        return
    base = []
    for c in cs:
        r = json.loads(json.dumps(progs.execute(c['kind'], c['seed'], 1, 0)))
        base.append(r)
        sim.note(c['kind'], c['seed'], len(json.dumps(r)))
        sim.state(c['kind'], len(json.dumps(r)) // 64)
        sim.count('programs_' + c['kind'])
        if r and r[0] == 'raised':
            sim.count('programs_rejected')
        for m, a in spec['layouts']:
            o = json.loads(json.dumps(progs.execute(c['kind'], c['seed'], m, a)))
            d = progs.differ(r, o)
            sim.count('layouts')
            if d:
                raise Violation('layout', 'program %s/%d gives another result under another object layout at %s' % (c['kind'], c['seed'], d))
    sim.fired('object_layout')
    o = fresh(spec)
    sim.fired('string_hash_seed')
    for c, x, y in zip(cs, base, o):
        d = progs.differ(x, y)
        if d:
            raise Violation('hash-seed', 'program %s/%d gives another result under string-hash seed %d at %s' % (c['kind'], c['seed'], spec['hashseed'], d))
