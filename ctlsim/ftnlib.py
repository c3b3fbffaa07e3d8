"""Finite tensor networks from specs: description, inputs, and the value numpy gives for them."""
import numpy as np

from . import ctl, ref

def gen_desc(rng, nmin=2, nmax=4, maxlegs=4, outp=0.4, post=0.4, pre=0.4, connected=0.85, extra=0.5):
    """names, legs (final label after pre-renames; original label), links, post renames, outer products of legs."""
    n = rng.randint(nmin, nmax)
    names = ['A', 'B', 'C', 'D', 'E', 'F', 'ul', 'dr', 't1', 't2'][:n] if rng.random() < 0.6 else ['t%d' % k for k in range(n)]
    rng.shuffle(names)
    legs = {m: [] for m in names}
    links = []

    short, full = ref.styled(rng, 'abcdefgh', False), ref.styled(rng, 'xyzw', True)

    def leg(m, label=None):
        used = set(x['label'] for x in legs[m])
        c = label or rng.choice([x for x in (short(k, 0) for k in range(8)) if x not in used])
        x = dict(label=c, orig=c)
        legs[m].append(x)
        return x

    def addlink(a, b):
        if len(legs[a]) >= maxlegs or len(legs[b]) >= maxlegs:
            return
        links.append([a, leg(a)['label'], b, leg(b)['label']])
    conn = rng.random() < connected
    for i in range(1, n):
        if conn or rng.random() < 0.5:
            addlink(names[rng.randrange(i)], names[i])
    for _ in range(n):
        if n > 1 and rng.random() < extra:
            addlink(*rng.sample(names, 2))
    opens = []
    for i, m in enumerate(names):
        k = 0
        while len(legs[m]) < maxlegs and (not legs[m] or rng.random() < 0.45):
            lab = full(k, i)
            leg(m, lab)
            opens.append([m, lab])
            k += 1
        rng.shuffle(legs[m])
    prel = []
    for m in names:
        for x in legs[m]:
            if rng.random() < pre * 0.5:
                x['orig'] = 'p' + x['label']
                prel.append([m, x['orig'], x['label']])
    d = dict(names=names, legs=legs, links=links, pre=prel, outp=[], post=[], realCost=rng.random() < 0.7, typicalDim=rng.choice([2, 10]),
             dense=None, removeTag=rng.random() < 0.8)
    if len(opens) >= 2 and rng.random() < outp:
        k = rng.randint(2, min(3, len(opens)))
        pick = rng.sample(opens, k)
        m0 = rng.choice(['m0', 'm0', 'm0', 'm-0', 'm-0-x'])
        d['outp'].append([pick, m0])
        d['dense'] = rng.choice(names)
        rest = [o for o in opens if o not in pick]
        if len(rest) >= 1 and rng.random() < 0.4:
            d['outp'].append([[rng.choice(rest), 'res-' + m0], 'm1'])
    left = open_after(d)
    for t, lab in left:
        if rng.random() < post * 0.5:
            d['post'].append([t, lab, rng.choice(['q', 'q', 'q', 'q-', 'q-r-']) + lab])
    return d


def open_labels(d):
    linked = set((a, x) for a, x, _, _ in d['links']) | set((b, y) for _, _, b, y in d['links'])
    return [(m, x['label']) for m in d['names'] for x in d['legs'][m] if (m, x['label']) not in linked]


def open_after(d):
    cur = [tuple(x) for x in open_labels(d)]
    for pick, new in d['outp']:
        for p in pick:
            p = tuple(p.split('-', 1)) if isinstance(p, str) else tuple(p)
            cur.remove(p)
        cur.append(('res', new))
    return cur


def gen_input(rng, d, maxdim=3, diag=0.3, cplx=0.2, like=None, one=0):
    """One set of tensors for the network.  like: another input whose dimensions are kept."""
    names = d['names']
    diags = {m: (rng.random() < diag and m != d['dense']) for m in names}
    if like is not None and rng.random() < 0.5:
        diags = {m: like[m]['diag'] for m in names}
    par = {}

    def f(x):
        while par.setdefault(x, x) != x:
            x = par[x]
        return x
    for m in names:
        for x in d['legs'][m]:
            f((m, x['label']))
            if diags[m]:
                par[f((m, x['label']))] = f((m, d['legs'][m][0]['label']))
    for a, x, b, y in d['links']:
        par[f((a, x))] = f((b, y))
    dims = {}
    out = {}
    same = rng.random() < 0.3
    other = None
    if one:
        # one bond (or open leg) gets another dimension
        other = rng.choice([f((m, x['label'])) for m in names for x in d['legs'][m]])
        dims[other] = rng.randint(2, one)
    for m in names:
        dd = []
        for k, x in enumerate(d['legs'][m]):
            r = f((m, x['label']))
            if r not in dims:
                if like is not None and r != other:
                    dims[r] = like[m]['dims'][k]
                else:
                    dims[r] = 2 if same else rng.randint(1 if rng.random() < 0.15 else 2, maxdim)
            dd.append(dims[r])
        out[m] = dict(dims=dd, diag=bool(diags[m]), cplx=bool(rng.random() < cplx), seed=rng.randrange(1 << 30))
    ref.dress(rng, list(out.values()), 0.15)
    return out


def build_ftn(d):
    f = ctl.FTN(tensorNames=list(d['names']), realCost=d['realCost'], typicalDim=d['typicalDim'])
    for m, a, b in d['pre']:
        f.addPreNameChange(m, a, b)
    for a, x, b, y in d['links']:
        f.addLink(a, x, b, y)
    for pick, new in d['outp']:
        f.addPostOutProduct([p if isinstance(p, str) else tuple(p) for p in pick], new)
    for t, a, b in d['post']:
        f.addPostNameChange(t, a, b)
    return f


def tensors(d, inp):
    return {m: ref.mk(dict(labels=[x['orig'] for x in d['legs'][m]], name=None, **inp[m])) for m in d['names']}


def expect(d, inp):
    """(labels, array) numpy gives for this description and input."""
    ref.set_unit(inp.values())
    ids = {}
    args = []
    for a, x, b, y in d['links']:
        k = len(set(ids.values()))
        ids[(a, x)] = k
        ids[(b, y)] = k
    n = len(d['links'])
    axes = []
    for m in d['names']:
        s = inp[m]
        if s['diag']:
            v = ref.values(s, (s['dims'][0],))
            arr = np.zeros(tuple(s['dims']), dtype=v.dtype)
            i = np.arange(s['dims'][0])
            arr[(i,) * len(s['dims'])] = v
        else:
            arr = ref.values(s, tuple(s['dims']))
        subs = []
        for x in d['legs'][m]:
            key = (m, x['label'])
            if key not in ids:
                ids[key] = n
                axes.append(key)
                n += 1
            subs.append(ids[key])
        args += [arr, subs]
    out = np.asarray(np.einsum(*args, [ids[k] for k in axes], optimize='greedy'))
    for pick, new in d['outp']:
        pk = [tuple(p.split('-', 1)) if isinstance(p, str) else tuple(p) for p in pick]
        pos = [axes.index(p) for p in pk]
        rest = [i for i in range(len(axes)) if i not in pos]
        out = np.transpose(out, pos + rest)
        out = out.reshape((-1,) + out.shape[len(pos):])
        axes = [('res', new)] + [axes[i] for i in rest]
    names = []
    for t, lab in axes:
        for t2, a, b in d['post']:
            if t2 == t and a == lab:
                lab = b
        names.append(lab if d['removeTag'] else t + '-' + lab)
    return ref.by_label(names, out)


def call(f, d, inp, plain, ts=None):
    """One contract call on network f with fresh (or given) tensors; returns the result."""
    ts = tensors(d, inp) if ts is None else ts
    arg = dict(ts) if plain else ctl.TensorDict(dict(ts))
    return f.contract(arg, removeTensorTag=d['removeTag'])
