"""Seeded thread scheduler: real Python threads, exactly one of which runs at a time.

A running task offers to give way before every executed line of CTL code (sys.settrace;
optionally before every bytecode) and before every backend call.  Whether it does, and to whom, is decided
by a PRNG seeded from the run's spec, or by an explicit list of (step, task) switches when
replaying or shrinking.  Locks created through threading.Lock/RLock are replaced by SimLock,
so that locking code under test blocks in the simulator, not in the operating system.
"""
import _thread
import random
import sys
import threading
import warnings

from . import core
from .core import Outcome, StepBudget, Violation, HarnessError, FAULTS

_real_allocate = _thread.allocate_lock


class Deadlock(BaseException):
    pass


class _Abort(BaseException):
    pass


class Task:
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.baton = _real_allocate()
        self.baton.acquire()
        self.done = False
        self.blocked = None       # SimLock waited for
        self.error = None
        self.plan = None
        self.calls = 0
        self.linalg = 0


class Sched:
    active = None

    def __init__(self, sim, conf, budget=4_000_000):
        """conf: {'mode':'random','seed':..,'p':..,'stall':[tid,from,to]?, 'opcode':bool?}
        or {'mode':'explicit','switches':[[step,tid],...], ...}"""
        self.sim = sim
        self.conf = conf
        self.mode = conf.get('mode', 'random')
        self.rng = random.Random('sched/%s' % conf.get('seed', 0))
        self.p = conf.get('p', 0.01)
        self.opcode = bool(conf.get('opcode'))
        self.stall = conf.get('stall')
        self.table = {int(s): t for s, t in conf.get('switches', [])}
        self.switches = []
        self.order = []
        self.step = 0
        self.budget = budget
        self.tasks = []
        self.cur = None
        self.main = _real_allocate()
        self.main.acquire()
        self.aborting = False
        self.fatal = None
        self.idents = {}
        self.stall_seen = False

    # -- user interface ----------------------------------------------------
    def run(self, fns):
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        sim = self.sim
        old = sim.sched
        sim.sched = self
        Sched.active = self
        try:
            for t in self.tasks:
                _thread.start_new_thread(self._body, (t,))
            first = self._choose(None, finish=True)
            self._resume(first)
            self.main.acquire()
        finally:
            sim.sched = old
            Sched.active = None
        sim.count('thread_switches', len(self.switches))
        sim.count('sched_steps', self.step)
        if self.switches:
            sim.nontrivial = True
        if self.fatal is not None:
            f = self.fatal
            if isinstance(f, Deadlock):
                raise Violation('liveness', 'deadlock: every thread waits for a lock')
            if isinstance(f, StepBudget):
                raise Violation('liveness', str(f))
            raise f
        return self.tasks

    def op(self, fn, plan=None):
        """Run one client call inside a task; returns Outcome."""
        t = self.cur
        t.calls = t.linalg = 0
        p = None
        if plan is not None:
            p = dict(kind=plan['kind'], unit='linalg' if plan['kind'] == 'linalg' else 'call', at=plan['at'], done=False)
        t.plan = p
        try:
            v = fn()
            o = Outcome('ok', value=v)
        except (Violation, HarnessError, StepBudget, _Abort, Deadlock):
            raise
        except BaseException as e:   # noqa: BLE001
            if (p is not None and p['done']) or core._chain_has_fault(e):
                o = Outcome('fault', exc=e, fired=True)
            elif isinstance(e, Exception):
                o = Outcome('raised', exc=e)
            else:
                raise
        if p is not None and p['done']:
            o.fired = True
        t.plan = None
        return o

    # -- seams -------------------------------------------------------------
    def on_backend(self, name):
        t = self.cur
        if t is None or self.idents.get(_thread.get_ident()) is not t:
            return
        self.point()
        t = self.cur
        n = t.calls
        t.calls += 1
        la = name.startswith('linalg.')
        nl = t.linalg
        if la:
            t.linalg += 1
        p = t.plan
        if p is not None and not p['done']:
            if (p['unit'] == 'call' and n == p['at']) or (p['unit'] == 'linalg' and la and nl == p['at']):
                p['done'] = True
                self.sim.fired(p['kind'])
                raise FAULTS[p['kind']]('injected %s at %s' % (p['kind'], name))

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(core.CTL_ROOT):
            if self.opcode:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.sim.steps += 1
            self.point()
        return self._local

    # -- scheduling --------------------------------------------------------
    def _stalled(self, t):
        return self.stall is not None and t.tid == self.stall[0] and self.stall[1] <= self.step < self.stall[2]

    def _runnable(self, excl=None):
        r = [t for t in self.tasks if not t.done and t is not excl and
             (t.blocked is None or t.blocked.free_for(t))]
        awake = [t for t in r if not self._stalled(t)]
        if awake and len(awake) < len(r):
            if not self.stall_seen:
                self.stall_seen = True
                self.sim.faults['stalled_thread'] = self.sim.faults.get('stalled_thread', 0) + 1
        return awake or r

    def _choose(self, cur, finish=False):
        """Task to run next (None: stay)."""
        s = self.step
        self.step += 1
        if self.step > self.budget and self.fatal is None:
            self.fatal = StepBudget('more than %d scheduling steps' % self.budget)
            self.aborting = True
            raise _Abort()
        if not finish:
            if self.mode == 'explicit':
                if s in self.table:
                    c = [t for t in self._runnable(cur) if t.tid == self.table[s]]
                    if c:
                        self.switches.append([s, c[0].tid])
                        return c[0]
                return None
            if self.stall is not None and self._stalled(cur):
                c = [t for t in self._runnable(cur) if not self._stalled(t)]
                if c:
                    k = self.rng.choice(c)
                    self.switches.append([s, k.tid])
                    return k
            if self.rng.random() >= self.p:
                return None
            c = self._runnable(cur)
            if not c:
                return None
            k = self.rng.choice(c)
            self.switches.append([s, k.tid])
            return k
        c = self._runnable(cur)
        if not c:
            return None
        if self.mode == 'explicit':
            if s in self.table:
                d = [t for t in c if t.tid == self.table[s]]
                if d:
                    self.switches.append([s, d[0].tid])
                    return d[0]
            return c[0]
        k = self.rng.choice(c)
        if k is not c[0]:
            self.switches.append([s, k.tid])
        return k

    def point(self):
        cur = self.cur
        if cur is None or self.idents.get(_thread.get_ident()) is not cur:
            return
        if self.aborting:
            raise _Abort()
        nxt = self._choose(cur)
        if nxt is not None:
            self._switch(cur, nxt)

    def _resume(self, t):
        self.cur = t
        self.order.append(t.tid)
        t.baton.release()

    def _switch(self, cur, nxt):
        self._resume(nxt)
        cur.baton.acquire()
        if self.aborting:
            raise _Abort()

    def block(self, lock):
        """Current task waits for lock."""
        cur = self.cur
        cur.blocked = lock
        while not lock.free_for(cur):
            try:
                nxt = self._choose(cur, finish=True)
            except _Abort:
                cur.blocked = None
                raise
            if nxt is None:
                cur.blocked = None
                self.fatal = Deadlock()
                self.aborting = True
                raise _Abort()
            self._switch(cur, nxt)
        cur.blocked = None

    def _body(self, t):
        t.baton.acquire()
        self.idents[_thread.get_ident()] = t
        try:
            if not self.aborting:
                sys.settrace(self._trace)
                try:
                    t.fn()
                finally:
                    sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:   # noqa: BLE001
            if self.fatal is None:
                self.fatal = e
                self.aborting = True
        t.done = True
        t.blocked = None
        if self.aborting:
            rest = [x for x in self.tasks if not x.done]
            if rest:
                self._resume(rest[0])
                return
            self.cur = None
            self.main.release()
            return
        try:
            nxt = self._choose(t, finish=True)
        except _Abort:
            nxt = None
        if nxt is None:
            rest = [x for x in self.tasks if not x.done]
            if rest:
                if self.fatal is None:
                    self.fatal = Deadlock()
                self.aborting = True
                self._resume(rest[0])
                return
            self.cur = None
            self.main.release()
            return
        self._resume(nxt)


class SimLock:
    """Drop-in for threading.Lock / RLock that the scheduler understands."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._n = 0
        self._real = None

    def _me(self):
        s = Sched.active
        if s is not None:
            t = s.idents.get(_thread.get_ident())
            if t is not None:
                return s, t
        return None, _thread.get_ident()

    def free_for(self, t):
        return self._owner is None or (self._re and self._owner is t)

    def acquire(self, blocking=True, timeout=-1):
        s, me = self._me()
        if s is not None and s.cur is me:
            s.point()
        if not self.free_for(me):
            if not blocking:
                return False
            if s is None:
                raise RuntimeError('deadlock: lock is held and nobody can release it')
            if timeout is not None and timeout >= 0:
                # simulated time passes: give the others one chance, then time out
                nxt = s._choose(s.cur, finish=True)
                if nxt is not None:
                    s._switch(s.cur, nxt)
                if not self.free_for(me):
                    return False
            else:
                s.block(self)
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._n == 0:
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        return SimLock(self._re)


def install_locks():
    threading.Lock = lambda: SimLock(False)
    threading.RLock = lambda: SimLock(True)


def random_conf(rng, opcode=0.0, stall=0.15):
    p = 10 ** rng.uniform(-3.3, -0.7)
    c = dict(mode='random', seed=rng.randrange(1 << 30), p=round(p, 6))
    if rng.random() < opcode:
        c['opcode'] = True
        c['p'] = round(p / 5, 7)
    if rng.random() < stall:
        a = rng.randrange(0, 400)
        c['stall'] = [rng.randrange(3), a, a + rng.randrange(100, 4000)]
    return c
