"""Simulator core: violations, injected faults, the per-run Sim object.

One run is a pure function of its spec (a JSON value).  Everything the code under
test can observe that is not in the spec is behind a seam owned here: the numeric
backend (xp.py), thread switches and interrupts (sched.py), randomness, object
hashes, the warnings filter and file access.
"""
import copy
import hashlib
import os
import random
import sys
import warnings

REPO = os.environ.get('CTLSIM_REPO', '/repo')
CTL_ROOT = os.path.join(REPO, 'src', 'CTL') + os.sep


class Violation(Exception):
    def __init__(self, kind, detail=''):
        super().__init__('%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = str(detail)


class HarnessError(Exception):
    pass


class SimFault:
    """Mixin of every injected exception."""


class SimOOM(MemoryError, SimFault):
    pass


class SimDeviceError(RuntimeError, SimFault):
    pass


class SimInterrupt(KeyboardInterrupt, SimFault):
    pass


class SimIOError(OSError, SimFault):
    pass


import numpy as np  # noqa: E402


class SimLinAlgError(np.linalg.LinAlgError, SimFault):
    pass


FAULTS = {'oom': SimOOM, 'device': SimDeviceError, 'kbd': SimInterrupt, 'linalg': SimLinAlgError}


class StepBudget(BaseException):
    """Raised by the step counter when a call exceeds its step budget (liveness)."""


class Outcome:
    __slots__ = ('kind', 'value', 'exc', 'fired', 'calls', 'lines')

    def __init__(self, kind, value=None, exc=None, fired=False, calls=0, lines=0):
        self.kind = kind          # ok | fault | raised
        self.value = value
        self.exc = exc
        self.fired = fired
        self.calls = calls
        self.lines = lines

    @property
    def ok(self):
        return self.kind == 'ok'


def _chain_has_fault(e, depth=0):
    while e is not None and depth < 20:
        if isinstance(e, SimFault):
            return True
        e = e.__cause__ or e.__context__
        depth += 1
    return False


def sig(x, nd=6):
    """Canonical text for a numeric value, rounded so that last-bit noise does not matter."""
    a = to_np(x)
    if a.size == 0:
        return 'empty%s' % (a.shape,)
    flat = np.ravel(a)
    if flat.size > 8:
        w = np.cos(np.arange(flat.size) * 0.7310585)
        vals = [np.sum(flat * w), np.sum(np.abs(flat))]
    else:
        vals = list(flat)
    out = []
    for v in vals:
        v = complex(v)
        out.append('%.*e' % (nd - 1, v.real + 0.0) if abs(v.imag) < 1e-12 else '%.*e%+.*ej' % (nd - 1, v.real, nd - 1, v.imag))
    return '%s:%s' % (a.shape, ','.join(out))


def to_np(x):
    """Plain ndarray from anything array-like in the simulation (explicit host transfer)."""
    r = getattr(x, '_sim_raw', None)
    if r is not None:
        return np.array(r() if callable(r) else r)
    return np.array(x)


class Sim:
    """Per-run simulator state."""

    current = None

    def __init__(self, spec):
        self.spec = spec
        self.log = []
        self.stats = {}
        self.faults = {}
        self.states = set()
        self.steps = 0            # backend calls + traced lines
        self.calls = 0            # backend calls
        self.rng = random.Random(str(spec.get('seed', 0)) + '/sim')
        self.nprng = np.random.RandomState(spec.get('seed', 0) % (2 ** 32))
        self.plan = None          # active fault plan
        self.sched = None
        self.op_calls = 0
        self.op_linalg = 0
        self.op_lines = 0
        self.where = None
        self.flops = 0
        self.interrupt_files = CTL_ROOT
        self.nontrivial = False
        self.known = []           # known-finding entries of this property
        self.tiny = False
        self.known_hits = {}

    def finding(self, kind, detail):
        """A violation the caller can step around: continue if the known-findings file lists
        exactly this one, otherwise report it."""
        import re
        for k in self.known:
            if k['kind'] == kind and re.fullmatch(k['match'], detail):
                self.known_hits[k['what']] = self.known_hits.get(k['what'], 0) + 1
                self.note('known', kind, detail)
                return
        raise Violation(kind, detail)

    # -- bookkeeping -------------------------------------------------------
    def note(self, *a):
        self.log.append(' '.join(str(x) for x in a))

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def fired(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.nontrivial = True

    def state(self, *a):
        self.states.add(hashlib.sha1(repr(a).encode()).hexdigest()[:12])

    def digest(self):
        return hashlib.sha256('\n'.join(self.log).encode()).hexdigest()[:16]

    # -- seam callbacks ----------------------------------------------------
    def on_backend(self, name):
        """Called by the simulated backend before each operation."""
        self.calls += 1
        self.steps += 1
        if self.sched is not None:
            self.sched.on_backend(name)
            return
        n = self.op_calls
        self.op_calls += 1
        la = name.startswith('linalg.')
        nl = self.op_linalg
        if la:
            self.op_linalg += 1
        p = self.plan
        if p is not None and not p['done']:
            if p['unit'] == 'call' and n == p['at']:
                self._fire(p, name)
            elif p['unit'] == 'linalg' and la and nl == p['at']:
                self._fire(p, name)

    def _fire(self, p, name):
        p['done'] = True
        self.fired(p['kind'])
        p['where'] = name
        raise FAULTS[p['kind']]('injected %s at %s' % (p['kind'], name))

    # -- running one operation under a fault -------------------------------
    def call(self, fn, fault=None, dry=None, trace=False):
        """Run fn().  fault: None or {'kind','frac'|'at'}; dry: callable doing the same
        work on a throw-away copy, used to learn how many fault points there are."""
        plan = None
        warn_error = False
        line_at = None
        if fault is not None:
            kind = fault['kind']
            if kind == 'warn':
                warn_error = True
            else:
                at = fault.get('at')
                unit = 'line' if kind == 'line' else ('linalg' if kind == 'linalg' else 'call')
                if at is None:
                    nc, nl, nln = self.measure(dry if dry is not None else fn, lines=(kind == 'line'))
                    n = {'line': nln, 'linalg': nl, 'call': nc}[unit]
                    if unit == 'linalg' and n == 0:
                        unit, kind, n = 'call', 'device', nc
                    at = int(fault['frac'] * n) if n > 0 else None
                if at is not None:
                    if unit == 'line':
                        line_at = at
                    else:
                        plan = dict(kind=kind, unit=unit, at=at, done=False, where=None)
        self.op_calls = self.op_linalg = 0
        self.plan = plan
        self.where = None
        tracer = None
        out = None
        old_trace = sys.gettrace()
        with warnings.catch_warnings():
            warnings.simplefilter('error' if warn_error else 'ignore')
            try:
                if line_at is not None:
                    tracer = LineTracer(self, line_at)
                    sys.settrace(tracer.glob)
                try:
                    v = fn()
                finally:
                    sys.settrace(old_trace)
                out = Outcome('ok', value=v)
            except Violation:
                raise
            except HarnessError:
                raise
            except StepBudget:
                raise
            except BaseException as e:   # noqa: BLE001 - classification below
                if isinstance(e, (SystemExit, GeneratorExit)):
                    raise
                fired = (plan is not None and plan['done']) or (tracer is not None and tracer.done)
                if warn_error and isinstance(e, Warning):
                    fired = True
                    self.fired('warning_as_error')
                if fired or _chain_has_fault(e):
                    out = Outcome('fault', exc=e, fired=True)
                else:
                    if isinstance(e, KeyboardInterrupt):
                        raise
                    out = Outcome('raised', exc=e)
        self.plan = None
        if plan is not None and plan['done']:
            out.fired = True
            self.where = plan['where']
        if tracer is not None and tracer.done:
            out.fired = True
            self.fired('interrupt_at_line')
            self.where = tracer.where
        out.calls = self.op_calls
        return out

    def measure(self, fn, lines=False):
        """Run fn (on a copy) counting backend calls and traced lines; RNG restored."""
        st = self.nprng.get_state()
        pyst = random.getstate()
        sv = (self.op_calls, self.op_linalg, self.plan, self.calls, self.steps, self.flops, dict(self.stats))
        self.op_calls = self.op_linalg = 0
        self.plan = None
        tracer = LineTracer(self, None) if lines else None
        old = sys.gettrace()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                if tracer:
                    sys.settrace(tracer.glob)
                try:
                    fn()
                finally:
                    sys.settrace(old)
            except (StepBudget, HarnessError):
                raise
            except Exception:
                pass
        res = (self.op_calls, self.op_linalg, tracer.n if tracer else 0)
        self.op_calls, self.op_linalg, self.plan, self.calls, self.steps, self.flops, self.stats = sv
        self.nprng.set_state(st)
        random.setstate(pyst)
        return res

    def step(self, world, op, fault=None):
        """Run op(world) with a fault placed by measuring op on a deep copy of world."""
        dry = None
        if fault is not None and 'at' not in fault and fault['kind'] != 'warn':
            def dry():
                return op(copy.deepcopy(world))
        return self.call(lambda: op(world), fault, dry)

    def expect_ok(self, out, what):
        if out.kind == 'raised':
            raise Violation('exception', '%s raised %s' % (what, describe(out.exc)))
        return out


def describe(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    loc = ''
    for fr in reversed(tb):
        if fr.filename.startswith(CTL_ROOT):
            loc = ' in %s:%s' % (os.path.relpath(fr.filename, CTL_ROOT), fr.name)
            break
    return '%s(%s)%s' % (type(e).__name__, str(e)[:160].replace('\n', ' '), loc)


class LineTracer:
    """Counts executed lines in CTL; raises an interrupt before line number `at`."""

    def __init__(self, sim, at):
        self.sim = sim
        self.at = at
        self.n = 0
        self.done = False
        self.where = None

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(CTL_ROOT):
            return self.loc
        return None

    def loc(self, frame, event, arg):
        if event == 'line' and not self.done:
            k = self.n
            self.n += 1
            self.sim.steps += 1
            if self.at is not None and k == self.at:
                self.done = True
                self.where = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                raise SimInterrupt('injected interrupt')
        return self.loc


class BudgetTracer:
    """Raises StepBudget when more than `limit` lines run in CTL within one call tree."""

    def __init__(self, limit):
        self.limit = limit
        self.n = 0

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(CTL_ROOT):
            return self.loc
        return None

    def loc(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n > self.limit:
                raise StepBudget('more than %d lines executed' % self.limit)
        return self.loc
