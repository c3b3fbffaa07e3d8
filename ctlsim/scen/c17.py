"""C17: name sets under histories of calls with an adversarial random source and interrupts inside calls."""
import random
import string

from .. import ctl
from ..core import StepBudget, Violation

RUNS = {'quick': 12000, 'thorough': 400000}
BATCH = 50
RULE = ('1-3 name sets (lengths 1-12) and the module-level ones; 5-60 calls of new, new with a preferred name, add, remove, contains, getNewString, with a random source '
        'that repeats earlier draws, gets stuck on one value, or aims at names in use, and interrupts at a line inside a call. Non-trivial: at least one repeated draw met, or a rejected or interrupted call.')
STATES = 'hash of (call, outcome, number of redraws, size of the set)'
REAL = 'stringSet.py, funcs.randomString, funcs.getNewString'
STUBS = 'random source (class of the global generator replaced during a run)'

FRESH_DRAWS = 60000


SEEN = set()       # only used to empty the module-level sets when they do not show their names


class Source(random.Random):
    """Adversarial generator: repeats names in use, sticks to a value, then gives fresh ones."""
    sim_script = None         # letters (indices) still to be given
    sim_aimed = 0
    sim_fresh = None          # private generator
    sim_spent = 0
    sim_stick = 0

    def _next(self, nbits):
        s = self.sim_script
        if s:
            v = s.pop(0)
            if nbits is None or nbits == 6:
                self.sim_aimed += 1
                return (v + 0.5) / 52 if nbits is None else v
            self.sim_script = []
        if self.sim_stick > 0:
            self.sim_stick -= 1
            v = 0.25 if nbits is None else (7 & ((1 << nbits) - 1))
        else:
            self.sim_spent += 1
            if self.sim_spent > FRESH_DRAWS:
                raise StepBudget('a name was still not handed out after %d fresh draws' % FRESH_DRAWS)
            v = self.sim_fresh.random() if nbits is None else self.sim_fresh.getrandbits(nbits)
        return v

    def random(self):
        return self._next(None)

    def getrandbits(self, k):
        return self._next(k)


class Seam:
    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        i = random._inst
        self.old = i.__class__
        self.fn = (random.random, random.getrandbits)
        i.__class__ = Source
        i.sim_fresh = random.Random(self.seed)
        i.sim_script, i.sim_aimed, i.sim_spent, i.sim_stick = [], 0, 0, 0
        random.random, random.getrandbits = i.random, i.getrandbits
        return i

    def __exit__(self, *a):
        i = random._inst
        i.__class__ = self.old
        i.__dict__.clear()
        random.random, random.getrandbits = self.fn
        return False


def gen(rng, tier, i):
    ns = [rng.choice([1, 1, 2, 3, 5, 10, 12, None]) for _ in range(rng.randint(1, 3))]
    ops = []
    for _ in range(rng.randint(5, 200 if tier == 'thorough' else 60)):
        k = rng.choice(['new', 'new', 'new', 'new', 'pref', 'prefUsed', 'add', 'addUsed', 'remove', 'remove', 'removeMissing', 'contains', 'known', 'fill'])
        op = dict(op=k, on=rng.randrange(6), s=rng.randrange(1 << 20))
        if k in ('new', 'known'):
            r = rng.random()
            op['src'] = dict(mode='fresh') if r < 0.35 else dict(mode='aim', times=rng.choice([1, 1, 2, 3, 10, 60])) if r < 0.85 else dict(mode='stick', n=rng.choice([10, 40, 300]))
        if rng.random() < 0.12:
            op['at'] = rng.randrange(10)
        ops.append(op)
    if rng.random() < 0.025:
        # a long life: many names from one set
        ops.insert(rng.randrange(len(ops)), dict(op='many', on=rng.randrange(6), s=rng.randrange(1 << 20), n=rng.choice([300, 1200, 1200, 5000, 12000])))
    return dict(ns=ns, ops=ops)


def members(S, seen):
    """The names in a set: its own record if it shows one, else all names met so far that it says it contains."""
    for m in [getattr(S, 'stringSet', None)] + list(vars(S).values()):
        if isinstance(m, (set, frozenset, dict, list, tuple)):
            return set(m)
    return {x for x in seen if S.contains(x)}


def run(spec, sim):
    sets = [ctl.stringSet.StringSet() if n is None else ctl.stringSet.StringSet(n) for n in spec['ns']]
    lens = [10 if n is None else n for n in spec['ns']]
    news = [s.newString for s in sets]
    for s, g in ((ctl.stringSet.MLStringSet, ctl.stringSet.getMLBondName), (ctl.stringSet.TensorStringSet, ctl.stringSet.getTensorName), (ctl.stringSet.BondStringSet, ctl.stringSet.getBondName)):
        for x in members(s, SEEN):
            s.remove(x)
        sets.append(s)
        lens.append(10)
        news.append(g)
    models = [set() for _ in sets]
    removed = [[] for _ in sets]
    with Seam('c17/%s' % spec.get('seed', 0)) as src:
        for oi, op in enumerate(spec['ops']):
            j = op['on'] % len(sets)
            S, M, n = sets[j], models[j], lens[j]
            k = op['op']
            what = 'call %d (%s)' % (oi, k)
            rng = random.Random('c17/%s' % op['s'])
            used = sorted(M)
            src.sim_script, src.sim_aimed, src.sim_spent, src.sim_stick = [], 0, 0, 0
            if op.get('src'):
                m = op['src']
                if m['mode'] == 'aim':
                    c = [x for x in used if len(x) == n and all(y in string.ascii_letters for y in x)]
                    src.sim_script = [string.ascii_letters.index(y) for _ in range(m['times']) for y in rng.choice(c)] if c else []
                elif m['mode'] == 'stick':
                    src.sim_stick = m['n']
            fault = None if op.get('at') is None else dict(kind='line', at=op['at'])
            want = None          # expected: ('raise',) or ('in', name) or ('out', name) or ('new',)
            if k in ('new', 'known') and len([x for x in M if len(x) == n]) >= 52 ** n - 2:
                continue
            if k == 'new':
                fn, want = news[j], ('new',)
            elif k == 'known':
                kn = set(M)
                fn, want = (lambda: ctl.funcs.getNewString(kn, n)), ('known',)
            elif k == 'many':
                if n < 5:
                    continue
                for _ in range(op['n']):
                    src.sim_spent = 0
                    o = sim.call(news[j])
                    sim.expect_ok(o, what)
                    if o.value in M:
                        raise Violation('duplicate', '%s: handed out %r, which is in use' % (what, o.value))
                    M.add(o.value)
                held = members(S, M)
                if held != M:
                    raise Violation('membership', '%s: the set now holds %s more and %s less than it should' % (what, sorted(held - M)[:3], sorted(M - held)[:3]))
                sim.count('names_in_bulk', op['n'])
                continue
            elif k == 'fill':
                # get close to a full set, so that unused names are rare
                if n != 1:
                    continue
                for x in rng.sample(string.ascii_letters, 40):
                    if x not in M and len(M) < 50:
                        S.add(x)
                        M.add(x)
                continue
            elif k in ('pref', 'add'):
                c = [x for x in removed[j] if x not in M]
                x = rng.choice(c) if c and rng.random() < 0.5 else rng.choice(['w%d' % rng.randrange(1000)] * 6 + ['', '0', ' ', 'Legs-1', 'None'])
                if x in M:
                    continue
                fn, want = (lambda: news[j](x)) if k == 'pref' else (lambda: S.add(x)), ('in', x)
            elif k in ('prefUsed', 'addUsed'):
                if not used:
                    continue
                x = rng.choice(used)
                fn, want = (lambda: news[j](x)) if k == 'prefUsed' else (lambda: S.add(x)), ('raise',)
            elif k == 'remove':
                if not used:
                    continue
                x = rng.choice(used)
                fn, want = (lambda: S.remove(x)), ('out', x)
            elif k == 'removeMissing':
                x = rng.choice(removed[j]) if removed[j] and rng.random() < 0.5 else 'no-such'
                if x in M:
                    continue
                fn, want = (lambda: S.remove(x)), ('raise',)
            else:
                x = rng.choice(used) if used and rng.random() < 0.5 else (rng.choice(removed[j]) if removed[j] else 'nothing')
                fn, want = (lambda: S.contains(x)), ('is', x in M)
            seen = {x for m in models for x in m} | {x for r in removed for x in r} | {want[1] if want[0] in ('in', 'out') else ''}
            o = sim.call(fn, fault)
            if o.ok and isinstance(o.value, str):
                seen.add(o.value)
            SEEN.update(seen)
            draws = src.sim_aimed // n
            before = set(M)
            now = members(S, seen)
            if o.kind == 'fault':
                # interrupted inside: nothing happened, or the whole effect did
                if want[0] == 'new':
                    extra = now - M
                    if M - now or len(extra) > 1:
                        raise Violation('partial', '%s interrupted at %s: set changed from %d names, lost %s, gained %s' % (what, sim.where, len(M), sorted(M - now), sorted(extra)))
                    M |= extra
                elif want[0] in ('in', 'out'):
                    full = M | {want[1]} if want[0] == 'in' else M - {want[1]}
                    if now != M and now != full:
                        raise Violation('partial', '%s interrupted at %s: set is neither as before nor as after' % (what, sim.where))
                    models[j] = M = now
                sim.state(k, 'interrupted', sim.where)
            elif want[0] == 'raise':
                if o.ok:
                    raise Violation('accepted', '%s: %r accepted' % (what, x))
                if not isinstance(o.exc, AssertionError):
                    raise Violation('exception', '%s: rejected with %s instead of AssertionError' % (what, type(o.exc).__name__))
                sim.nontrivial = True
                sim.count('rejected')
            else:
                sim.expect_ok(o, what)
                if want[0] in ('new', 'known'):
                    v = o.value
                    if not isinstance(v, str) or len(v) != n or any(c not in string.ascii_letters for c in v):
                        raise Violation('form', '%s: handed out %r, expected %d letters' % (what, v, n))
                    if v in before:
                        raise Violation('duplicate', '%s: handed out %r, which is in use' % (what, v))
                    if draws:
                        sim.nontrivial = True
                        sim.count('names_in_use_drawn', draws)
                    if want[0] == 'new':
                        M.add(v)
                    elif kn != before:
                        raise Violation('input-modified', '%s: getNewString changed the set it was given' % what)
                elif want[0] == 'in':
                    if k == 'pref' and o.value != want[1]:
                        raise Violation('form', '%s: asked for %r, got %r' % (what, want[1], o.value))
                    M.add(want[1])
                elif want[0] == 'out':
                    M.discard(want[1])
                    removed[j].append(want[1])
                elif bool(o.value) != want[1]:
                    raise Violation('membership', '%s: contains(%r) is %s' % (what, x, o.value))
            sim.note(what, j, o.kind, len(models[j]), o.value if want[0] in ('new', 'known') and o.ok else '')
            sim.state(k, o.kind, min(draws, 20), min(len(M), 60))
            for q, (T, m) in enumerate(zip(sets, models)):
                held = members(T, seen)
                if held != m:
                    raise Violation('membership', '%s on set %d: set %d now holds %s more and %s less than it should' % (what, j, q, sorted(held - m)[:3], sorted(m - held)[:3]))
            for y in (sorted(M)[:3] + removed[j][-2:]):
                if bool(S.contains(y)) != (y in M):
                    raise Violation('membership', '%s: contains(%r) disagrees with the history' % (what, y))
