"""Seeded search, replay and shrinking.  Every run happens in a forked child of a process that
imported the code under test once, so runs cannot leak into the parent or into other batches."""
import copy
import hashlib
import importlib
import json
import os
import random
import re
import resource
import select
import signal
import subprocess
import sys
import time as _time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_clock = _time.monotonic
_sleep = _time.sleep

LIVENESS_LINES = 6_000_000
HANG_WALL = 150.0


class Clock:
    t = 0.0


def _virtual_time():
    def now():
        Clock.t += 1e-6
        return Clock.t

    def sleep(x):
        Clock.t += max(0.0, float(x))
    _time.time = now
    _time.monotonic = now
    _time.perf_counter = now
    _time.process_time = now
    _time.sleep = sleep


def load(prop):
    return importlib.import_module('ctlsim.scen.%s' % prop.lower())


def make_spec(mod, prop, seed, i, tier):
    rng = random.Random('%s/%s/%s' % (prop, seed, i))
    spec = mod.gen(rng, tier, i)
    spec['seed'] = rng.randrange(1 << 31)
    spec['index'] = i
    return spec


def run_one(mod, spec, budget=None):
    """Execute one run in this process.  Returns a result dict."""
    import warnings
    import numpy as np
    from . import core, ctl, ref, xp
    core.Sim.current = None
    ref.UNIT = 1.0
    random.seed('run/%s' % spec.get('seed', 0))
    np.random.seed(spec.get('seed', 0) % (2 ** 32))
    Clock.t = 1.0e9
    ctl.set_hash()
    sim = core.Sim(spec)
    prop = mod.__name__.rsplit('.', 1)[-1].upper()
    sim.known = [k for k in load_known() if k.get('property') == prop]
    core.Sim.current = sim
    backend = xp.HostXP('host')
    sim.host = backend
    ctl.setXP(backend)
    r = dict(i=spec.get('index', -1), viol=None, harness=None)
    tracer = None
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
    try:
        if budget:
            tracer = core.BudgetTracer(budget)
            sys.settrace(tracer.glob)
        try:
            mod.run(copy.deepcopy(spec), sim)
        finally:
            sys.settrace(None)
    except core.Violation as v:
        r['viol'] = dict(kind=v.kind, detail=v.detail)
    except core.StepBudget as e:
        r['viol'] = dict(kind='liveness', detail=str(e))
    except core.HarnessError as e:
        r['harness'] = 'HarnessError: %s' % e
    except BaseException as e:   # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1].filename if tb else ''
        inctl = any(f.filename.startswith(core.CTL_ROOT) for f in tb)
        if inctl and not isinstance(e, core.SimFault) and isinstance(e, Exception):
            r['viol'] = dict(kind='exception', detail=core.describe(e))
            r['tb'] = traceback.format_exc()[-3000:]
        else:
            r['harness'] = traceback.format_exc()[-3000:]
    finally:
        core.Sim.current = None
    sw = getattr(sim, 'switch_log', None)
    r['known'] = sim.known_hits
    r.update(digest=sim.digest(), steps=sim.steps, calls=sim.calls, faults=sim.faults, stats=sim.stats,
             states=sorted(sim.states)[:400], nontrivial=bool(sim.nontrivial), switches=sw,
             trace=sim.log[-120:] if (r['viol'] or r['harness']) else None,
             sample=sim.log[:40] if spec.get('index', -1) < 3 else None)
    return r


def _child_setup():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    _virtual_time()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.setrecursionlimit(6000)


def _spawn(mod, specs, budget=None, every=True):
    """Fork a child that runs specs in order; returns (pid, fd)."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            _child_setup()
            with os.fdopen(wfd, 'w') as f:
                for k, s in enumerate(specs):
                    f.write('S %d\n' % k)
                    f.flush()
                    r = run_one(mod, s, budget)
                    f.write('R ' + json.dumps(r, default=str) + '\n')
                    f.flush()
                    if r['harness'] or (r['viol'] and every):
                        break
            code = 0
        except BaseException:   # noqa: BLE001
            try:
                sys.stderr.write(traceback.format_exc())
            except Exception:
                pass
        finally:
            os._exit(code)
    os.close(wfd)
    return pid, rfd


class Job:
    def __init__(self, bi, specs, pid, fd):
        self.bi, self.specs, self.pid, self.fd = bi, specs, pid, fd
        self.buf = b''
        self.results = []
        self.started = -1
        self.last = _clock()
        self.eof = False

    def feed(self):
        d = os.read(self.fd, 1 << 16)
        if not d:
            self.eof = True
            return
        self.last = _clock()
        self.buf += d
        *lines, self.buf = self.buf.split(b'\n')
        for l in lines:
            if l.startswith(b'S '):
                self.started = int(l[2:])
            elif l.startswith(b'R '):
                self.results.append(json.loads(l[2:]))

    def close(self):
        os.close(self.fd)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


def run_in_child(mod, specs, budget=None, wall=HANG_WALL):
    """Run specs in one fresh child; returns (results, hung, crashed)."""
    pid, fd = _spawn(mod, specs, budget)
    j = Job(0, specs, pid, fd)
    end = _clock() + wall
    hung = False
    while not j.eof:
        r, _, _ = select.select([fd], [], [], max(0.0, min(1.0, end - _clock())))
        if r:
            j.feed()
        elif _clock() > end:
            hung = True
            break
    j.close()
    return j.results, hung, (not hung and len(j.results) < len(specs) and not (j.results and (j.results[-1]['viol'] or j.results[-1]['harness'])))


# -- shrinking -----------------------------------------------------------------
SHRINK_KEYS = ('ops', 'switches', 'tasks', 'clients', 'edits', 'tensors_drop')


def _paths(x, pre=()):
    """Paths of lists that may be thinned and of 'fault' entries that may be removed."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in SHRINK_KEYS and isinstance(v, list):
                yield ('list', pre + (k,))
            if k in ('fault', 'stall') and v is not None:
                yield ('null', pre + (k,))
            yield from _paths(v, pre + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                yield from _paths(v, pre + (i,))


def _get(x, path):
    for k in path:
        x = x[k]
    return x


def _set(x, path, v):
    y = copy.deepcopy(x)
    t = y
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = v
    return y


def shrink(mod, prelude, spec, kind, wall=60.0, log=None):
    end = _clock() + wall
    tries = [0]

    def fails(s):
        tries[0] += 1
        res, hung, crashed = run_in_child(mod, prelude + [s], budget=(LIVENESS_LINES if kind == 'liveness' else None), wall=60)
        if len(res) != len(prelude) + 1 or hung or crashed:
            return None
        v = res[-1]['viol']
        return res[-1] if (v and v['kind'] == kind) else None

    # make schedules explicit first
    best = spec
    r = fails(best)
    if r is None:
        return spec, None
    if r.get('switches') is not None and 'sched' in best and best['sched'] and best['sched'].get('mode') == 'random':
        c = copy.deepcopy(best)
        c['sched'] = dict(mode='explicit', switches=r['switches'])
        if best['sched'].get('opcode'):
            c['sched']['opcode'] = True
        rr = fails(c)
        if rr is not None:
            best, r = c, rr
    changed = True
    while changed and _clock() < end:
        changed = False
        for typ, p in list(_paths(best)):
            if _clock() > end:
                break
            try:
                cur = _get(best, p)
            except (KeyError, IndexError, TypeError):
                continue
            if typ == 'null':
                if cur is None:
                    continue
                c = _set(best, p, None)
                rr = fails(c)
                if rr is not None:
                    best, r, changed = c, rr, True
                continue
            n = len(cur)
            size = max(1, n // 2)
            while n > 0 and size >= 1 and _clock() < end:
                i = 0
                while i < len(_get(best, p)) and _clock() < end:
                    l = _get(best, p)
                    c = _set(best, p, l[:i] + l[i + size:])
                    rr = fails(c)
                    if rr is not None:
                        best, r, changed = c, rr, True
                    else:
                        i += size
                if size == 1:
                    break
                size //= 2
        if hasattr(mod, 'simplify'):
            for c in mod.simplify(best):
                if _clock() > end:
                    break
                rr = fails(c)
                if rr is not None:
                    best, r, changed = c, rr, True
                    break
    if log is not None:
        log['shrink_tries'] = tries[0]
    return best, r


# -- check ---------------------------------------------------------------------
_KNOWN = None


def load_known():
    global _KNOWN
    if _KNOWN is None:
        p = os.path.join(VERIF, 'known-findings.json')
        _KNOWN = json.load(open(p)).get('findings', []) if os.path.exists(p) else []
    return _KNOWN


def check(prop, tier, seed, workers=8, nruns=None, quiet=False):
    t0 = _clock()
    mod = load(prop)
    n = nruns if nruns is not None else mod.RUNS[tier]
    cap = {'quick': 300.0, 'thorough': 720.0}[tier]
    bsize = getattr(mod, 'BATCH', 20)
    nb = (n + bsize - 1) // bsize
    known = [k for k in load_known() if k.get('property') == prop]
    out = sys.stdout
    agg = dict(evaluations=0, steps=0, calls=0, faults={}, stats={}, nontrivial=set(), states=set(), samples=[], digests=[])
    found = []          # (index, prelude, spec, result)
    known_seen = {}
    harness = []
    jobs = {}
    nextb = 0
    stop_at = None

    def specs_of(bi):
        return [make_spec(mod, prop, seed, i, tier) for i in range(bi * bsize, min(n, (bi + 1) * bsize))]

    def absorb(j, r, spec, prelude):
        nonlocal stop_at
        agg['evaluations'] += 1
        agg['steps'] += r['steps']
        agg['calls'] += r['calls']
        for k, v in r['faults'].items():
            agg['faults'][k] = agg['faults'].get(k, 0) + v
        for k, v in r['stats'].items():
            agg['stats'][k] = agg['stats'].get(k, 0) + v
        agg['states'].update(r['states'])
        agg['digests'].append((r['i'], r['digest']))
        if r['nontrivial']:
            agg['nontrivial'].add(r['digest'])
        if r.get('sample') is not None:
            agg['samples'].append((r['i'], dict(index=r['i'], spec=json.dumps(spec)[:1500], log=r['sample'])))
        for k, v in r.get('known', {}).items():
            known_seen[k] = known_seen.get(k, 0) + v
        if r['harness']:
            harness.append((r['i'], r['harness']))
        if r['viol']:
            found.append((r['i'], prelude, spec, r))
            if stop_at is None or j.bi < stop_at:
                stop_at = j.bi

    truncated = False
    while True:
        while nextb < nb and len(jobs) < workers and (stop_at is None or nextb < stop_at) and len(harness) < 5:
            if _clock() - t0 > cap:
                truncated = True
                break
            sp = specs_of(nextb)
            pid, fd = _spawn(mod, sp, every=True)
            jobs[fd] = Job(nextb, sp, pid, fd)
            nextb += 1
        if not jobs:
            break
        rd, _, _ = select.select(list(jobs), [], [], 1.0)
        for fd in rd:
            jobs[fd].feed()
        for fd, j in list(jobs.items()):
            hang = (not j.eof) and _clock() - j.last > HANG_WALL
            if not (j.eof or hang):
                continue
            del jobs[fd]
            j.close()
            for k, r in enumerate(j.results):
                absorb(j, r, j.specs[k], j.specs[:k])
            bad = j.results and (j.results[-1]['viol'] or j.results[-1]['harness'])
            if bad and not j.results[-1]['viol'] and len(harness) < 5 and len(j.results) < len(j.specs):
                # the harness could not judge this run: the others may still show a violation
                rest = j.specs[len(j.results):]
                pid, fd2 = _spawn(mod, rest, every=True)
                jobs[fd2] = Job(j.bi, rest, pid, fd2)
                continue
            if len(j.results) < len(j.specs) and not bad:
                k = len(j.results)
                s = j.specs[k]
                # a hung or crashed run: decide by counting steps
                res, hung2, crashed2 = run_in_child(mod, [s], budget=LIVENESS_LINES, wall=200)
                if res and res[0]['viol']:
                    absorb(j, res[0], s, [])
                elif hung2 or crashed2:
                    how = 'hung outside counted steps' if hung2 else 'process died'
                    r = dict(i=s['index'], viol=dict(kind='liveness' if hung2 else 'crash', detail='run %s' % how), harness=None, steps=0, calls=0,
                             faults={}, stats={}, states=[], digest='', nontrivial=False, switches=None, trace=None, sample=None)
                    absorb(j, r, s, [])
                elif res and not res[0]['harness'] and k + 1 <= len(j.specs):
                    # finished when alone (slow machine): go on with the rest of the batch
                    absorb(j, res[0], s, [])
                    rest = j.specs[k + 1:]
                    if rest:
                        pid, fd2 = _spawn(mod, rest, every=True)
                        jobs[fd2] = Job(j.bi, rest, pid, fd2)
                else:
                    harness.append((s['index'], (res[0]['harness'] if res else 'child died')))
    wall_search = _clock() - t0
    viol_lines = 0
    if found:
        found.sort(key=lambda x: x[0])
        kinds = set()
        for i, prelude, spec, r in found:
            kind = r['viol']['kind']
            if kind in kinds or len(kinds) >= 2:
                continue
            kinds.add(kind)
            path = report(mod, prop, seed, tier, i, prelude, spec, r, out)
            out.write('VIOLATION property=%s replay=%s\n' % (prop, path))
            out.flush()
            viol_lines += 1
    for k in known:
        out.write('KNOWN-FINDING: property=%s %s\n' % (prop, k['what']))
    hours = max(wall_search, 1e-6) / 3600.0
    agg['digests'].sort()
    cov = dict(
        evaluations=agg['evaluations'],
        distinct_nontrivial=len(agg['nontrivial']),
        rule=getattr(mod, 'RULE', '') + ' A run is one seed-derived specification executed once; distinct means a distinct event log.',
        samples=[s for _, s in sorted(agg['samples'], key=lambda x: x[0])][:3] or [dict(note='no sample')],
        runs_requested=n, truncated_by_wall_cap=truncated,
        runs_per_hour=int(agg['evaluations'] / hours), seeds_per_hour=int(agg['evaluations'] / hours),
        simulated_time=dict(unit='simulator steps (backend calls + executed CTL lines under the scheduler); CTL reads no clock', steps=agg['steps'], backend_calls=agg['calls']),
        faults_injected=dict(sorted(agg['faults'].items())),
        distinct_states=len(agg['states']), state_measure=getattr(mod, 'STATES', 'hash of the observed outcome of each operation'),
        counters=dict(sorted(agg['stats'].items())),
        known_findings_met=dict(sorted(known_seen.items())),
        log_digest=hashlib.sha256(json.dumps(agg['digests']).encode()).hexdigest()[:16],
        real_components=getattr(mod, 'REAL', 'all CTL code, numpy kernels'),
        stubs=getattr(mod, 'STUBS', 'numeric backend wrapped by a counting, fault-injecting proxy (ctlsim/xp.py)'),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=getattr(mod, 'ASSUME', []), wall_s=round(_clock() - t0, 2), violations=len(found))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1)
    if harness:
        i, h = sorted(harness, key=lambda x: x[0])[0]
        sys.stderr.write('HARNESS ERROR in %s run %d:\n%s\n' % (prop, i, h))
        return 1 if viol_lines else 2
    if not quiet:
        out.write('%s %s: %d runs, %d distinct non-trivial, faults %s, %.1fs\n' % (
            prop, tier, agg['evaluations'], len(agg['nontrivial']), json.dumps(cov['faults_injected']), _clock() - t0))
    return 1 if viol_lines else 0


def report(mod, prop, seed, tier, i, prelude, spec, r, out):
    kind = r['viol']['kind']
    budget = LIVENESS_LINES if kind == 'liveness' else None
    res, hung, crashed = run_in_child(mod, [spec], budget=budget)
    pre = []
    if not (res and res[-1]['viol'] and res[-1]['viol']['kind'] == kind):
        res2, _, _ = run_in_child(mod, prelude + [spec], budget=budget)
        if len(res2) == len(prelude) + 1 and res2[-1]['viol'] and res2[-1]['viol']['kind'] == kind:
            pre = prelude
            # thin the prelude
            k = 0
            end = _clock() + 30
            while k < len(pre) and _clock() < end:
                c = pre[:k] + pre[k + 1:]
                res3, _, _ = run_in_child(mod, c + [spec], budget=budget)
                if len(res3) == len(c) + 1 and res3[-1]['viol'] and res3[-1]['viol']['kind'] == kind:
                    pre = c
                else:
                    k += 1
    best, rr = shrink(mod, pre, spec, kind)
    rr = rr or r
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', '%s-s%s-r%d-%s.json' % (prop, seed, i, re.sub(r'[^a-z0-9]+', '-', kind.lower())))
    doc = dict(property=prop, verif_seed=seed, tier=tier, run=i, kind=kind, detail=rr['viol']['detail'], digest=rr['digest'],
               prelude=pre, spec=best, original_spec=spec, trace=rr.get('trace'), traceback=rr.get('tb'))
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    p = subprocess.run([sys.executable, '-m', 'ctlsim', 'replay', path], capture_output=True, text=True, cwd=VERIF)
    ok = p.returncode == 1 and 'digest matches' in p.stdout
    out.write('violated: %s: %s\n' % (kind, rr['viol']['detail'][:500]))
    out.write('seed %s run %d; replay in a fresh interpreter %s\n' % (seed, i, 'reproduces it exactly' if ok else 'DID NOT reproduce it: ' + p.stdout[-300:] + p.stderr[-300:]))
    return path


def replay(path):
    doc = json.load(open(path))
    mod = load(doc['property'])
    budget = LIVENESS_LINES if doc['kind'] == 'liveness' else None
    res, hung, crashed = run_in_child(mod, doc['prelude'] + [doc['spec']], budget=budget, wall=300)
    if hung or crashed or not res:
        same = doc['kind'] in ('liveness', 'crash')
        print('replay: run %s' % ('hung' if hung else 'died'))
        if same:
            print('VIOLATION property=%s replay=%s' % (doc['property'], path))
            return 1
        return 2
    r = res[-1]
    for l in (r.get('trace') or []):
        print('  ' + l)
    if r['harness']:
        print(r['harness'])
        return 2
    if r['viol']:
        same = r['viol']['kind'] == doc['kind']
        print('%s: %s' % (r['viol']['kind'], r['viol']['detail']))
        print('digest matches' if (same and r['digest'] == doc['digest']) else 'digest DIFFERS: %s, recorded %s' % (r['digest'], doc['digest']))
        print('VIOLATION property=%s replay=%s' % (doc['property'], path))
        return 1
    print('replay: property held')
    return 0


def selftest(prop, seed, n, workers):
    """Determinism: digests of n runs as one line per run."""
    mod = load(prop)
    specs = [make_spec(mod, prop, seed, i, 'quick') for i in range(n)]
    out = []
    bs = getattr(mod, 'BATCH', 20)
    jobs = []
    for b in range(0, n, bs):
        res, hung, crashed = run_in_child(mod, specs[b:b + bs], wall=600)
        for r in res:
            out.append('%d %s %s %s' % (r['i'], r['digest'], r['steps'], (r['viol'] or {}).get('kind')))
            if r['harness']:
                out.append('harness ' + r['harness'])
    return out
