"""C07: histories of contractions, failures and edits on one finite tensor network, against a fresh network."""
import copy
import random

from .. import ctl, ftnlib, ref
from ..core import Violation, describe, sig

RUNS = {'quick': 5000, 'thorough': 80000}
BATCH = 25
RULE = 'Random network description and a history of 3-12 contractions, failed or rejected calls, and edits. Non-trivial: at least one fault or edit took effect.'
STATES = 'hash of (operation, outcome, value)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy, warnings filter, interrupts at executed lines'

EDITS = ['addTensor', 'addTensor', 'removeTensor', 'addLink', 'addPre', 'removePre', 'addPost', 'removePost', 'addOutp', 'readd', 'chainPre', 'chainPost', 'badRemovePre', 'badRemovePost', 'badRemoveTensor']
BAD = ['missing', 'extra', 'label', 'dim', 'type', 'mixed']


def gen(rng, tier, i):
    d = ftnlib.gen_desc(rng, nmin=1 if rng.random() < 0.1 else 2, nmax=5 if tier == 'thorough' else 4, outp=0.25)
    if rng.random() < 0.08:
        d = ftnlib.gen_desc(rng, nmin=5, nmax=7, maxlegs=3, outp=0.25)
    ops = []
    for _ in range(rng.randint(3, 16 if tier == 'thorough' else 10)):
        r = rng.random()
        s = rng.randrange(1 << 30)
        if r < 0.5:
            op = dict(op='contract', s=s, like=rng.random() < 0.5, plain=rng.random() < 0.5, diag=rng.choice([0, 0, 0.4, 0.9]))
            if op['like'] and rng.random() < 0.3:
                op['one'] = rng.choice([3, 6, 9])
            if rng.random() < 0.25:
                op['again'] = True          # the very objects of the last contraction
            if rng.random() < 0.15:
                op['tag'] = True            # the other value of removeTensorTag
            if rng.random() < 0.15:
                op['shape'] = True          # tensors without data
            if rng.random() < 0.3:
                k = rng.choice(['oom', 'device', 'kbd', 'line', 'line', 'warn'])
                op['fault'] = dict(kind=k) if k == 'warn' else dict(kind=k, frac=rng.random())
        elif r < 0.62:
            op = dict(op='bad', how=rng.choice(BAD), s=s)
        elif r < 0.7:
            op = dict(op='locked', kind=rng.choice(EDITS), s=s)
        else:
            op = dict(op='edit', kind=rng.choice(EDITS), s=s)
        ops.append(op)
    ops.append(dict(op='contract', s=rng.randrange(1 << 30), like=True, plain=False, diag=0))
    return dict(desc=d, ops=ops)


def busy(d):
    """Open legs that renames or outer products refer to."""
    b = set((t, x) for t, x, _ in d['post'])
    for pick, new in d['outp']:
        for p in pick:
            b.add(tuple(p.split('-', 1)) if isinstance(p, str) else tuple(p))
    return b


def plan_edit(d, kind, rng):
    """Returns (new description, function applying the edit to the network) or None."""
    d = copy.deepcopy(d)
    calls = []
    b = busy(d)
    if kind == 'addTensor':
        m = 'n%d' % rng.randrange(1000)
        if m in d['names'] or len(d['names']) >= 6:
            return None
        d['names'].append(m)
        d['legs'][m] = []
        calls.append(lambda f: f.addTensor(m))
        free = [o for o in ftnlib.open_labels(d) if o not in b]
        k = 0
        for o in rng.sample(free, min(len(free), rng.randint(0, 2))):
            lab = 'abc'[k]
            k += 1
            d['legs'][m].append(dict(label=lab, orig=lab))
            if d['links'] and rng.random() < 0.5:
                l = [m, lab, o[0], o[1]]
            else:
                l = [o[0], o[1], m, lab]
            d['links'].append(l)
            calls.append(lambda f, l=l: f.addLink(*l))
        for j in range(rng.randint(0 if k else 1, 2)):
            lab = 'xy'[j] + m
            d['legs'][m].append(dict(label=lab, orig=lab))
        rng.shuffle(d['legs'][m])
    elif kind == 'removeTensor':
        c = [m for m in d['names'] if not any(m in (l[0], l[2]) for l in d['links']) and not any(t == m for t, _ in b) and m != d['dense']]
        if not c or len(d['names']) < 2:
            return None
        m = rng.choice(c)
        for p in [p for p in d['pre'] if p[0] == m]:
            d['pre'].remove(p)
            calls.append(lambda f, p=p: f.removePreNameChange(*p))
        d['names'].remove(m)
        del d['legs'][m]
        calls.append(lambda f: f.removeTensor(m))
    elif kind == 'readd':
        # taken out and put back: links, renames and outer products that name it stay
        m = rng.choice(d['names'])
        d['names'].remove(m)
        d['names'].append(m)
        calls.append(lambda f: f.removeTensor(m))
        calls.append(lambda f: f.addTensor(m))
    elif kind == 'chainPre':
        m = rng.choice(d['names'])
        c = [x for x in d['legs'][m] if x['orig'] == x['label']]
        if len(c) < 2:
            return None
        x, y = rng.sample(c, 2)
        x['orig'], y['orig'] = y['label'], x['label']
        for p in ([m, x['orig'], 'tmp'], [m, y['orig'], y['label']], [m, 'tmp', x['label']]):
            d['pre'].append(p)
            calls.append(lambda f, p=p: f.addPreNameChange(*p))
    elif kind == 'chainPost':
        c = [o for o in ftnlib.open_after(d) if o not in b]
        c = [(x, y) for x in c for y in c if x[0] == y[0] and x[1] < y[1]]
        if not c:
            return None
        (t, x), (_, y) = rng.choice(c)
        for p in ([t, x, 'tmp'], [t, y, x], [t, 'tmp', y]):
            d['post'].append(p)
            calls.append(lambda f, p=p: f.addPostNameChange(*p))
    elif kind in ('badRemovePre', 'badRemovePost'):
        l = d['pre'] if kind == 'badRemovePre' else d['post']
        p = list(rng.choice(l)) if l and rng.random() < 0.8 else [rng.choice(d['names']), 'a', 'b']
        j = rng.randrange(3)
        p[j] = p[j] + '0'
        if p in l:
            return None
        return d, lambda f: (f.removePreNameChange if kind == 'badRemovePre' else f.removePostNameChange)(*p)
    elif kind == 'badRemoveTensor':
        return d, lambda f: f.removeTensor('nobody')
    elif kind == 'addLink':
        free = [o for o in ftnlib.open_labels(d) if o not in b]
        c = [(x, y) for x in free for y in free if x[0] < y[0]]
        if not c:
            return None
        x, y = rng.choice(c)
        l = [x[0], x[1], y[0], y[1]]
        d['links'].append(l)
        calls.append(lambda f: f.addLink(*l))
    elif kind == 'addPre':
        m = rng.choice(d['names'])
        c = [x for x in d['legs'][m] if x['orig'] == x['label']]
        if not c:
            return None
        x = rng.choice(c)
        x['orig'] = 'p' + x['label']
        p = [m, x['orig'], x['label']]
        d['pre'].append(p)
        calls.append(lambda f: f.addPreNameChange(*p))
    elif kind == 'removePre':
        c = [p for p in d['pre'] if p[1][0] == 'p' and p[1][1:] == p[2]]
        if not c:
            return None
        p = rng.choice(c)
        d['pre'].remove(p)
        for x in d['legs'][p[0]]:
            if x['label'] == p[2]:
                x['orig'] = p[2]
        calls.append(lambda f: f.removePreNameChange(*p))
    elif kind == 'addPost':
        c = [o for o in ftnlib.open_after(d) if o not in b]
        if not c:
            return None
        t, x = rng.choice(c)
        p = [t, x, 'q' + x]
        d['post'].append(p)
        calls.append(lambda f: f.addPostNameChange(*p))
    elif kind == 'removePost':
        c = [p for p in d['post'] if p[2] == 'q' + p[1]]
        if not c:
            return None
        p = rng.choice(c)
        d['post'].remove(p)
        calls.append(lambda f: f.removePostNameChange(*p))
    elif kind == 'addOutp':
        c = [o for o in ftnlib.open_after(d) if o not in b]
        if len(c) < 1 or len(d['outp']) >= 3:
            return None
        pick = [list(x) for x in rng.sample(c, rng.randint(1, min(3, len(c))))]
        new = 'm%d' % len(d['outp'])
        while any(n == new for _, n in d['outp']):
            new += 'x'
        d['outp'].append([pick, new])
        if d['dense'] is None:
            d['dense'] = rng.choice(d['names'])
        calls.append(lambda f: f.addPostOutProduct([tuple(p) for p in pick], new))
    return d, (lambda f: [c(f) for c in calls])


def run(spec, sim):
    d = spec['desc']
    f = ftnlib.build_ftn(d)
    last = None
    kept = None
    locked = False
    tag = d['removeTag']
    for oi, op in enumerate(spec['ops']):
        rng = random.Random('c07/%s' % op['s'])
        what = 'step %d (%s)' % (oi, op['op'])
        d['removeTag'] = tag
        if op.get('tag'):
            d['removeTag'] = not tag
        if op['op'] == 'contract':
            inp = None
            if op['like'] and last is not None and sorted(last) == sorted(d['names']) and last_ok(last, d):
                inp = ftnlib.gen_input(rng, d, like=last, diag=op['diag'], one=op.get('one', 0))
            if inp is None or not last_ok(inp, d):
                inp = ftnlib.gen_input(rng, d, diag=op['diag'])
            ts = arg = None
            if op.get('again') and kept is not None and kept[0] is last and sorted(last) == sorted(d['names']) and last_ok(last, d) and kept[3] == labels_in(d):
                inp, ts, arg = kept[:3]
                sim.count('same_inputs_again')
            last = inp
            if ts is None:
                ts = ftnlib.tensors(d, inp)
                if op.get('shape'):
                    ts = {m: t.toTensorLike() for m, t in ts.items()}
                arg = dict(ts) if op['plain'] else ctl.TensorDict(dict(ts))
            kept = (inp, ts, arg, labels_in(d))
            shape = any(t.tensorLikeFlag for t in ts.values())
            plain = isinstance(arg, dict)
            snap = ref.Snap(list(ts.values()))
            sim.flops = 0
            o = sim.call(lambda: f.contract(arg, removeTensorTag=d['removeTag']), op.get('fault'),
                         dry=lambda: ftnlib.call(ftnlib.build_ftn(d), d, inp, plain))
            locked = True
            work = sim.flops
            snap.check(what)
            got = arg if plain else arg.tensors
            if sorted(got) != sorted(ts) or any(got[k] is not ts[k] for k in ts):
                raise Violation('input-modified', '%s: the dictionary of tensors changed' % what)
            sg = '' if not o.ok else repr(o.value.shape) if shape else sig(o.value.a)
            sim.note(what, o.kind, sg)
            sim.state(op['op'], o.kind, len(d['names']), sg)
            sim.expect_ok(o, what)
            if not o.ok:
                continue
            ref.check_struct([o.value], what)
            want = ftnlib.expect(d, inp)
            if shape:
                r = o.value
                a = sorted(zip(r.labels, r.shape))
                if not r.tensorLikeFlag or r.a is not None or a != sorted(zip(want[0], want[1].shape)):
                    raise Violation('differs-from-fresh', '%s: shape-only result with legs %s, expected %s' % (what, a, sorted(zip(want[0], want[1].shape))))
                sim.count('shape_only')
                continue
            ref.same_value(ref.t_value(o.value), want, what)
            g = ftnlib.build_ftn(d)
            sim.flops = 0
            p = sim.expect_ok(sim.call(lambda: ftnlib.call(g, d, inp, plain)), 'fresh network at step %d' % oi)
            ref.same_value(ref.t_value(p.value), want, 'fresh network at step %d' % oi)
            # without realCost the first order is kept on purpose, and whether the result is stored as diagonal depends on the order
            if d['realCost'] and type(p.value) is not type(o.value):
                raise Violation('differs-from-fresh', '%s: result is a %s, from a fresh network a %s' % (what, type(o.value).__name__, type(p.value).__name__))
            if d['realCost'] and work > sim.flops:
                raise Violation('more-work', '%s: %d multiplications, a fresh network needs %d' % (what, work, sim.flops))
        elif op['op'] == 'bad':
            inp = ftnlib.gen_input(rng, d)
            ts = ftnlib.tensors(d, inp)
            how = op['how']
            if how == 'missing':
                if len(ts) < 2:
                    continue
                ts.pop(rng.choice(sorted(ts)))
            elif how == 'extra':
                ts['zz'] = ref.mk(dict(labels=['a'], dims=[2], seed=1))
            elif how == 'label':
                m = rng.choice(sorted(ts))
                ls = [k for k, x in enumerate(d['legs'][m]) if any([m, x['label']] in ([l[0], l[1]], [l[2], l[3]]) for l in d['links'])]
                if not ls:
                    continue
                ts[m].legs[rng.choice(ls)].name = 'nowhere'
            elif how == 'dim':
                if not d['links']:
                    continue
                a, x, b, y = rng.choice(d['links'])
                s = copy.deepcopy(inp[a])
                s['diag'] = False
                k = [q['label'] for q in d['legs'][a]].index(x)
                s['dims'][k] += 1
                ts[a] = ref.mk(dict(labels=[q['orig'] for q in d['legs'][a]], name=None, **s))
            elif how == 'mixed':
                if len(ts) < 2:
                    continue
                m = rng.choice(sorted(ts))
                ts[m] = ts[m].toTensorLike()
            else:
                ts = {m: None for m in ts}
            snap = ref.Snap([t for t in ts.values() if t is not None])
            o = sim.call(lambda: f.contract(ctl.TensorDict(dict(ts))))
            sim.note(what, how, o.kind)
            sim.nontrivial = True
            if o.kind != 'raised':
                raise Violation('accepted', '%s: inputs with %s were accepted' % (what, how))
            locked = True
            snap.check(what)
        else:
            e = plan_edit(d, op['kind'], rng)
            if e is None:
                continue
            if op['op'] == 'locked':
                if not locked:
                    continue
                f.lock()
                o = sim.call(lambda: e[1](f))
                sim.note(what, op['kind'], o.kind)
                if o.kind != 'raised':
                    raise Violation('accepted', '%s: %s was accepted by a locked network' % (what, op['kind']))
            else:
                f.unlock()
                if op['kind'].startswith('bad'):
                    o = sim.call(lambda: e[1](f))
                    sim.note(what, op['kind'], o.kind)
                    if o.kind != 'raised':
                        raise Violation('accepted', '%s: %s was accepted' % (what, op['kind']))
                    sim.count('rejected_edits')
                    continue
                o = sim.expect_ok(sim.call(lambda: e[1](f)), '%s %s' % (what, op['kind']))
                d = e[0]
                sim.nontrivial = True
                sim.count('edits')
                sim.note(what, op['kind'])


def labels_in(d):
    return {m: [q['orig'] for q in d['legs'][m]] for m in d['names']}


def last_ok(inp, d):
    return all(m in inp and len(inp[m]['dims']) == len(d['legs'][m]) for m in d['names']) and \
        all(inp[a]['dims'][ix(d, a, x)] == inp[b]['dims'][ix(d, b, y)] for a, x, b, y in d['links']) and \
        (d['dense'] is None or not inp[d['dense']]['diag'])


def ix(d, a, x):
    return [q['label'] for q in d['legs'][a]].index(x)
