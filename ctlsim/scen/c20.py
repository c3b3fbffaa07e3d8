"""C20: tensors created from shapes, labels, legs of other tensors and data, rejected, stopped and repeated."""
import copy
import random

import numpy as np

from .. import ctl, ref
from ..core import Violation, to_np

RUNS = {'quick': 20000, 'thorough': 300000}
BATCH = 50
RULE = ('A small linked network and 4-14 creations of dense, diagonal and shape-only tensors from mixtures of shape, labels, data and legs (fresh ones and legs of the live tensors), '
        'many with contradictory arguments or stopped at a backend call and repeated. Non-trivial: a creation was rejected or stopped.')
STATES = 'hash of (class, what was given, outcome, number of legs)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy'

BAD = ['labelCount', 'labelName', 'labelOrder', 'dims', 'dimCount', 'size', 'unequal', 'nothing', 'empty']


def gen(rng, tier, i):
    net = ref.gen_net(rng, 1, 4, connected=0.8, extra=0.6, openp=0.7, limit=3000)
    ops = []
    for _ in range(rng.randint(4, 24 if tier == 'thorough' else 14)):
        op = dict(mode=rng.choice(['legs', 'legs', 'legs', 'shape', 'data', 'data', 'factory']), diag=rng.random() < 0.45, like=rng.random() < 0.2,
                  s=rng.randrange(1 << 30))
        if rng.random() < 0.35:
            op['bad'] = rng.choice(BAD)
        if rng.random() < 0.4:
            op['fault'] = dict(kind=rng.choice(['oom', 'device', 'kbd']), frac=rng.random())
        ops.append(op)
    return dict(net=net, ops=ops)


class Call:
    """One creation: what is given, and what must come out (None: it must be rejected; 'any': either, but consistent)."""


def plan(op, ts, n):
    rng = random.Random('c20/%s' % op['s'])
    c = Call()
    c.take, c.fresh, c.kw = [], [], {}
    diag, mode, bad = op['diag'], op['mode'], op.get('bad')
    c.cls = 'D' if diag else 'T'
    c.must = 'ok'
    if mode == 'factory':
        return plan_factory(c, rng, bad)
    k = rng.choice([0, 1, 1, 2, 2, 3])
    d0 = rng.randint(1, 3)
    if mode == 'legs':
        order = []
        if ts and rng.random() < 0.8:
            i = rng.randrange(len(ts))
            legs = list(range(len(ts[i].legs)))
            rng.shuffle(legs)
            if ts[i].legs:
                legs = legs[:rng.randint(1, len(legs))] if rng.random() < 0.6 else legs
            if diag and legs:
                d0 = ts[i].legs[legs[0]].dim
                legs = [x for x in legs if ts[i].legs[x].dim == d0]
            order += [(i, x) for x in legs]
            if rng.random() < 0.3 and len(ts) > 1:
                j = rng.choice([x for x in range(len(ts)) if x != i])
                y = [x for x in range(len(ts[j].legs)) if not diag or ts[j].legs[x].dim == d0][:1]
                order += [(j, x) for x in y]
        for q in range(rng.randint(0, 2) if order else rng.randint(0, 3)):
            order.insert(rng.randint(0, len(order)), ('new', d0 if diag else rng.randint(1, 3), 'n%d_%d' % (n, q)))
        dims = [x[1] if x[0] == 'new' else ts[x[0]].legs[x[1]].dim for x in order]
        names = [x[2] if x[0] == 'new' else ts[x[0]].legs[x[1]].name for x in order]
        c.order = order
    else:
        c.order = None
        dims = [d0] * k if diag else [rng.randint(1, 3) for _ in range(k)]
        names = ['%s%d' % ('pqrstuvw'[q], n) for q in range(k)]
    c.dims, c.names = dims, names
    size = int(np.prod(dims)) if dims else 1
    if size > 2000:
        return None
    labels = shape = data = None
    if mode != 'legs' or rng.random() < 0.4:
        labels = list(names) if rng.random() < 0.7 else tuple(names)
        if mode != 'legs' and rng.random() < 0.4:
            labels, c.names = None, None
    if mode == 'shape' or (mode == 'legs' and rng.random() < 0.4):
        shape = tuple(dims)
        if diag and dims and rng.random() < 0.3:
            shape = dims[0]
    if mode == 'data' or rng.random() < 0.5:
        data = np.array(np.random.RandomState(op['s'] % (1 << 31)).standard_normal(dims))
        if rng.random() < 0.25:
            data = data + 1j * np.random.RandomState(op['s'] % (1 << 31) + 1).standard_normal(dims)
    c.full = data
    if data is not None:
        if diag and dims:
            c.full = data[tuple([np.arange(dims[0])] * len(dims))]
            if rng.random() < 0.5 and not (mode == 'data' and labels is None and len(dims) != 1):
                data = c.full
        if mode != 'data' and data.ndim == len(dims) and rng.random() < 0.3:
            # the same number of elements in another shape
            data = data.reshape(rng.choice([(size,), (1, size), (size, 1)]))
            if diag and data.shape == (size,) and size != (dims or [1])[0]:
                c.must = 'any'
    if diag and isinstance(shape, int) and mode == 'shape':
        # the number of dimensions comes from labels or data
        if labels is None and (data is None or data.ndim != len(dims)):
            labels = c.names = list(names)
        if labels is not None and data is not None and data.ndim not in (1, len(dims)):
            data = c.full
    if diag and labels is not None and len(labels) == 0 and mode != 'legs':
        labels = c.names = None
    if not diag and shape is not None and mode == 'shape' and labels is None and len(dims) > 26:
        return None
    if diag and not dims and data is not None:
        data = data.reshape(())
    if not dims:
        c.must = 'ok' if c.must == 'ok' else c.must
    # contradictions
    if bad is not None:
        c.must = 'raise'
        if bad == 'labelCount':
            if c.names is None and labels is None:
                labels = list(names)
            elif labels is None:
                labels = list(names)
            labels = list(labels) + ['extra'] if rng.random() < 0.5 or not labels else list(labels)[:-1]
            if diag and mode != 'legs' and (isinstance(shape, int) or (shape is None and data is not None and data.ndim <= 1)):
                return None             # labels say how many dimensions there are
            if diag and mode != 'legs' and not dims:
                return None
            if len(labels) == 0 and mode != 'legs' and diag:
                return None
        elif bad in ('labelName', 'labelOrder'):
            if mode != 'legs' or not names or (bad == 'labelOrder' and names == names[::-1]):
                return None
            labels = names[::-1] if bad == 'labelOrder' else names[:-1] + [names[-1] + 'x']
        elif bad in ('dims', 'dimCount'):
            if mode != 'legs' or not dims:
                return None
            shape = tuple(dims) + (1,) if bad == 'dimCount' else tuple(dims[:-1]) + (dims[-1] + 1,)
        elif bad == 'size':
            if mode == 'data' or (diag and isinstance(shape, int) and mode == 'shape' and labels is None):
                return None
            # one element more; as a flat array never the diagonal of anything here
            data = np.arange(float(size * max([1] + dims) + 1)) + 1.0
        elif bad == 'unequal':
            if not diag or len(dims) < 2:
                return None
            if mode == 'shape':
                shape, data = tuple(dims[:-1]) + (dims[-1] + 1,), None
            elif mode == 'data':
                data = np.ones(tuple(dims[:-1]) + (dims[-1] + 1,))
            else:
                if order[-1][0] != 'new':
                    return None
                order[-1] = ('new', dims[-1] + 1, order[-1][2])
                data = shape = None
        elif bad == 'nothing':
            if mode == 'legs':
                return None
            shape = data = labels = None
        elif bad == 'empty':
            # an empty list is given, which is not the same as none at all
            if not dims:
                return None
            which = rng.choice(['labels', 'labels', 'shape', 'legs'])
            if which == 'labels':
                if diag and mode != 'legs' and (isinstance(shape, int) or (shape is None and (data is None or data.ndim < 2))):
                    return None         # labels say how many dimensions there are
                labels = []
            else:
                labels = list(names) if labels is None else labels
                if which == 'shape':
                    shape = ()
                else:
                    c.order = []
    c.data, c.labels, c.shape = data, labels, shape
    c.kw = dict(name=rng.choice([None, 'N%d' % n]), degreeOfFreedom=rng.choice([None, None, 1, 2]))
    if op['like']:
        c.kw['tensorLikeFlag'] = True
        if rng.random() < 0.5:
            c.data, c.full = (None, None) if mode != 'data' and bad != 'size' else (c.data, c.full)
        if diag and isinstance(shape, int) and mode == 'shape' and c.data is None and c.labels is None and bad is None:
            c.labels = c.names = list(names)
            if not names:
                return None
    c.tuple = c.order is not None and rng.random() < 0.2
    c.given = '+'.join(x for x, v in (('legs', c.order), ('shape', shape), ('labels', labels), ('data', c.data)) if v is not None)
    return c


def plan_factory(c, rng, bad):
    f = rng.choice(['makeTriangleTensor', 'makeSquareTensor', 'makeSquareOutTensor'])
    nd = 4 if f == 'makeSquareTensor' else 3
    dims = [rng.randint(1, 3) for _ in range(nd)]
    c.cls, c.order, c.shape = f, None, None
    if bad is not None:
        dims = dims + [2] if rng.random() < 0.5 else dims[:-1]
        c.must = 'raise'
    c.data = c.full = np.random.RandomState(rng.randrange(1 << 30)).standard_normal(dims)
    c.dims = dims
    c.labels = None
    if f == 'makeSquareOutTensor':
        c.loc = rng.choice(['ul', 'ur', 'dl', 'dr'])
        c.names = [x for x in 'udlr' if x not in c.loc] + ['o']
    elif rng.random() < 0.5:
        c.labels = c.names = ['a%d' % x for x in range(nd)]
    else:
        c.names = ['1', '2', '3'] if nd == 3 else ['u', 'l', 'd', 'r']
    c.given = f
    return c


def fire(c, w):
    """Make the call on world w = dict(ts, fresh, labels, shape, data)."""
    a = {}
    if c.cls.startswith('make'):
        g = getattr(ctl.tensorFactory, c.cls)
        if c.cls == 'makeSquareOutTensor':
            return g(w['data'], c.loc)
        return g(w['data'], w['labels']) if w['labels'] is not None else g(w['data'])
    if c.order is not None:
        a['legs'] = w['legs']
    for k in ('labels', 'shape', 'data'):
        if w[k] is not None:
            a[k] = w[k]
    return (ctl.DiagonalTensor if c.cls == 'D' else ctl.Tensor)(**a, **c.kw)


def world(c, ts):
    legs, fresh = None, []
    if c.order is not None:
        legs = []
        for x in c.order:
            if x[0] == 'new':
                fresh.append(ctl.Leg(None, x[1], x[2]))
                legs.append(fresh[-1])
            else:
                legs.append(ts[x[0]].legs[x[1]])
    cp = lambda x: list(x) if isinstance(x, list) else x                                 # noqa: E731
    if legs is not None and c.tuple:
        legs = tuple(legs)
    return dict(ts=ts, legs=legs, fresh=fresh, labels=cp(c.labels), shape=cp(c.shape), data=None if c.data is None else ref.host(c.data))


class Given:
    """Everything handed over, as it was."""

    def __init__(self, w):
        self.w = w
        self.legs = None if w['legs'] is None else list(w['legs'])
        self.leg = [(g, g.tensor, g.name, g.dim, g.bond, ref.other(g)) for g in (self.legs or [])]
        self.rest = copy.copy(w['labels']), copy.copy(w['shape'])
        self.data = None if w['data'] is None else np.array(to_np(w['data']))

    def check(self, what, owner=None):
        w = self.w
        if self.legs is not None and (len(self.legs) != len(w['legs']) or any(x is not y for x, y in zip(self.legs, w['legs']))):
            raise Violation('input-modified', '%s changed the list of legs it was given' % what)
        if (w['labels'], w['shape']) != self.rest:
            raise Violation('input-modified', '%s changed the labels or the shape it was given' % what)
        if self.data is not None and (np.shape(to_np(w['data'])) != self.data.shape or not np.array_equal(to_np(w['data']), self.data)):
            raise Violation('input-modified', '%s changed the array it was given' % what)
        for g, t, name, dim, bond, o in self.leg:
            if g.tensor is not (t if owner is None else owner):
                raise Violation('leg-taken' if owner is None else 'structure', '%s: leg %s belongs to %s' % (
                    what, name, 'another tensor than before' if owner is None else 'another tensor than the one created from it'))
            if (g.name, g.dim) != (name, dim) or g.bond is not bond or ref.other(g) is not o:
                raise Violation('leg-changed', '%s: leg %s was renamed, resized or linked elsewhere' % (what, name))


def created(c, t, g, what):
    diag = c.cls == 'D'
    like = bool(c.kw.get('tensorLikeFlag'))
    if isinstance(t, ctl.DiagonalTensor) != diag or bool(t.diagonalFlag) != diag or bool(t.tensorLikeFlag) != like:
        raise Violation('created', '%s: a %s came out' % (what, type(t).__name__))
    if g.legs is not None and (len(t.legs) != len(g.legs) or any(x is not y for x, y in zip(t.legs, g.legs))):
        raise Violation('created', '%s: the tensor does not have the legs given' % what)
    if [x.dim for x in t.legs] != list(c.dims) or tuple(t.shape) != tuple(c.dims):
        raise Violation('created', '%s: shape %s and legs of dimensions %s, expected %s' % (what, tuple(t.shape), [x.dim for x in t.legs], c.dims))
    if c.names is not None and list(t.labels) != list(c.names):
        raise Violation('created', '%s: labels %s, expected %s' % (what, t.labels, c.names))
    if len(set(id(x) for x in t.legs)) != len(t.legs):
        raise Violation('created', '%s: one leg twice' % what)
    if (t.name, t.degreeOfFreedom) != (c.kw.get('name'), c.kw.get('degreeOfFreedom')):
        raise Violation('created', '%s: name and degree of freedom are %s' % (what, (t.name, t.degreeOfFreedom)))
    if like:
        if t.a is not None:
            raise Violation('created', '%s: a shape-only tensor holds data' % what)
    elif c.full is not None:
        a = to_np(t.a)
        want = c.full if diag and c.dims else c.full.reshape(c.dims)
        if a.shape != want.shape or not np.array_equal(a, want):
            raise Violation('created', '%s: the tensor holds other data than given (shape %s, expected %s)' % (what, a.shape, want.shape))
    ref.check_struct([t], what)


def run(spec, sim):
    ts = ref.build(spec['net'])
    for oi, op in enumerate(spec['ops']):
        c = plan(op, ts, oi)
        if c is None:
            continue
        what = 'step %d (%s%s from %s%s)' % (oi, 'shape-only ' if op['like'] and op['mode'] != 'factory' else '', c.cls, c.given, ', ' + op['bad'] if c.must == 'raise' else '')
        w = world(c, ts)
        g = Given(w)
        used = set() if c.order is None else set(x[0] for x in c.order if x[0] != 'new')
        snap, others = ref.Snap(ts), ref.Snap([t for k, t in enumerate(ts) if k not in used])
        o = None
        if op.get('fault'):
            o = sim.step(w, lambda x: fire(c, x), op['fault'])
            sim.state(c.cls, c.given, o.kind, sim.where)
            if o.kind == 'fault':
                sim.nontrivial = True
                sim.note(what, 'stopped', sim.where)
                snap.check('%s stopped by %s' % (what, op['fault']['kind']), 'leg-taken')
                g.check('%s stopped by %s' % (what, op['fault']['kind']))
                o = None
        if o is None:
            o = sim.call(lambda: fire(c, w))
        sim.state(c.cls, c.given, c.must, o.kind, len(c.dims))
        sim.note(what, o.kind)
        if not o.ok:
            if c.must == 'ok':
                sim.expect_ok(o, what)
            sim.nontrivial = True
            sim.count('rejected')
            snap.check('rejected %s' % what, 'leg-taken')
            g.check('rejected %s' % what)
            continue
        if c.must == 'raise':
            raise Violation('accepted', '%s was accepted' % what)
        t = o.value
        g.check(what, owner=t)
        others.check(what)
        created(c, t, g, what)
        if w['data'] is not None and not t.tensorLikeFlag:
            was = np.array(to_np(t.a))
            w['data'][...] = 77.0
            if not np.array_equal(to_np(t.a), was):
                raise Violation('not-isolated', '%s: writing to the array given changed the tensor' % what)
        for k in ('legs', 'labels'):
            if isinstance(w[k], list):              # the caller uses its lists for something else
                w[k].append(ctl.Leg(None, 1, 'zz') if k == 'legs' else 'zz') if op['s'] % 2 else w[k].reverse()
        created(c, t, g, '%s, then its lists used for something else' % what)
        ts = [x for k, x in enumerate(ts) if k not in used]
        if len(set(t.labels)) == len(t.labels) and len(ts) < 8:
            ts.append(t)
        sim.count('created')
    # what was created contracts like any other tensor
    for k, t in enumerate(ts):
        if any(g.bond is not None for g in t.legs) or len(t.legs) > 4:
            continue
        x = ctl.Tensor(data=ref.host(np.arange(1.0, 3.0)), labels=['zq'], tensorLikeFlag=False)
        if t.tensorLikeFlag:
            x = x.toTensorLike()
        want = None if t.tensorLikeFlag else np.multiply.outer(ref.dense(t), np.arange(1.0, 3.0))
        names = list(t.labels) + ['zq']
        dims = list(t.shape) + [2]
        o = sim.call(lambda: ctl.contract.contractTwoTensors(t, x, outProductWarning=False))
        what = 'outer product of tensor %d left at the end' % k
        sim.expect_ok(o, what)
        if sorted(zip(o.value.labels, o.value.shape)) != sorted(zip(names, dims)):
            raise Violation('created', '%s: legs %s' % (what, list(zip(o.value.labels, o.value.shape))))
        if want is not None:
            ref.same_value(ref.t_value(o.value), ref.by_label(names, want), what, 'created')
        ref.check_struct([o.value], what)
