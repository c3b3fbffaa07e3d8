"""C19: graphs under histories of edits, queries, rejected edits and failed queries."""
import itertools
import random

import numpy as np

from .. import ctl, ref
from ..core import Violation, to_np

RUNS = {'quick': 8000, 'thorough': 60000}
BATCH = 25
RULE = ('1-2 graphs (plain, tensor graphs with or without diagonal vertices, lattices); 6-25 steps of adding edges, open edges and rejected edges and of queries - edges, degrees, '
        'planning by three searches, costs, Ising networks and partition functions - with failures inside queries. Every answer compared with a fresh graph and with a model. '
        'Non-trivial: an edit after a query, a rejected edit or a failed query.')
STATES = 'hash of (kind of graph, operation, outcome, backend call that failed, vertices, edges)'
REAL = 'all CTL code, numpy kernels'
STUBS = 'backend module proxy'


def gen(rng, tier, i):
    gs = []
    for _ in range(rng.randint(1, 2)):
        kind = rng.choice(['tensor', 'tensor', 'tensor', 'diag', 'plain', 'lattice'])
        g = dict(kind=kind, n=rng.randint(1, 6) if kind != 'plain' else rng.randint(2, 6))
        if kind == 'diag':
            g['diag'] = [rng.random() < 0.5 for _ in range(g['n'])]
        if kind == 'lattice':
            g['lat'] = rng.choice(['pbc', 'fbc', 'double', 'complete'])
            g['n'], g['m'] = rng.choice([(2, 2), (2, 3), (3, 2), (2, 1), (1, 3), (3, 3)]) if g['lat'] != 'double' else rng.choice([(1, 1), (1, 2), (2, 1)])
            if g['lat'] == 'pbc' and min(g['n'], g['m']) < 2:
                g['n'], g['m'] = 2, 3
            g['w'] = [round(rng.uniform(0.1, 0.9), 3), round(rng.uniform(0.1, 0.9), 3)]
            g['one'] = rng.random() < 0.4
            if rng.random() < 0.12:
                g['n'], g['m'] = rng.choice([(4, 4), (3, 5), (5, 2), (4, 3), (2, 7)]) if g['lat'] != 'double' else rng.choice([(2, 2), (3, 2), (2, 3)])
                g['big'] = True
        elif kind != 'plain' and rng.random() < 0.08:
            n = rng.randint(7, 10)
            g.update(n=n, big=True)
            if kind == 'diag':
                g['diag'] = [rng.random() < 0.5 for _ in range(n)]
            e = [[rng.randrange(k), k, rng.choice([2, 2, 3, 4, 5])] for k in range(1, n)]
            e += [[a, b, rng.choice([2, 3])] for a, b in (rng.sample(range(n), 2) for _ in range(rng.randint(0, 5)))]
            g['start'] = e + [[rng.randrange(n), None, 2] for _ in range(rng.randint(0, 3))]
        elif kind == 'plain' and rng.random() < 0.1:
            n = rng.randint(7, 14)
            g.update(n=n, big=True)
            g['start'] = [rng.sample(range(n), 2) + [round(rng.uniform(0.1, 0.9), 3)] for _ in range(rng.randint(10, 45))]
        gs.append(g)
    ops = []
    for _ in range(rng.randint(6, 60 if tier == 'thorough' else 25)):
        op = dict(g=rng.randrange(2), op=rng.choice(['add', 'add', 'add', 'add', 'free', 'free', 'bad', 'edges', 'degree', 'plan', 'plan', 'plan', 'cost', 'ising', 'Z', 'index', 'other']), s=rng.randrange(1 << 30))
        if rng.random() < 0.25:
            op['fault'] = dict(kind=rng.choice(['oom', 'device', 'kbd']), frac=rng.random())
        ops.append(op)
    return dict(gs=gs, ops=ops)


class G:
    """A live graph and the list of its edges (i, j or None, weight) in order of addition."""

    def __init__(self, spec):
        self.spec = spec
        self.base = 0
        self.most = None
        self.planned = None           # parameters of the last completed optimal search for the present edges
        self.unsure = False
        self.queried = False
        self.ev = []
        if spec['kind'] == 'lattice':
            self.o, e = lattice(spec)
            self.n = len(self.o.v)
            check_edges(self.o, e, 'lattice %s %sx%s' % (spec['lat'], spec['n'], spec['m']))
            self.e = list(e)
            self.base = len(e)
            self.most = len(e) + 3 if spec.get('big') else None
        else:
            self.n = spec['n']
            self.o = self.fresh([], spoil=True)
            self.e = [tuple(x) for x in spec.get('start', [])]
            for i, j, w in self.e:
                put(self.o, i, j, w)
            self.most = len(self.e) + 4 if spec.get('big') else None
        self.tensor = spec['kind'] in ('tensor', 'diag')

    def fresh(self, edges=None, spoil=False):
        k = self.spec['kind']
        if k in ('tensor', 'diag'):
            flags = list(self.spec['diag']) if k == 'diag' else None
            g = ctl.tensorGraph.TensorGraph(self.n, diagonalFlags=flags)
            if spoil and flags:
                flags[:] = [not x for x in flags]      # the caller's own list, used for something else
        elif k == 'lattice':
            g = lattice(self.spec)[0]
        else:
            g = ctl.graph.UndirectedGraph(self.n)
        for i, j, w in (self.e if edges is None else edges)[self.base:]:
            put(g, i, j, w)
        return g


def put(g, i, j, w):
    return g.addFreeEdge(i, weight=w) if j is None else g.addEdge(i, j, weight=w)


def read(g):
    out = []
    for e in g.getEdges():
        a, b = e.vertices
        out.append((a.index, None if b is None else b.index, e.weight))
    return out


def lattice(s):
    gf = __import__('CTL.funcs.graphFuncs', fromlist=['x'])
    n, m = s['n'], s['m']
    w = s['w'][0] if s['one'] else tuple(s['w'])
    a, b = (w, w) if s['one'] else w
    e = []
    if s['lat'] == 'complete':
        k = n + m
        return gf.completeGraph(k, weight=s['w'][0]), [(x, y, s['w'][0]) for x in range(k) for y in range(x + 1, k)]
    if s['lat'] == 'double':
        h = lambda x, y: x * m + y                                   # noqa: E731
        v = lambda x, y: (n + 1) * m + x * (m + 1) + y               # noqa: E731
        for x in range(n):
            for y in range(m):
                e += [(v(x, y), h(x, y), b), (v(x, y), h(x + 1, y), a), (v(x, y + 1), h(x, y), a), (v(x, y + 1), h(x + 1, y), b)]
        return gf.doubleSquareLatticeFBC(n, m, weight=w), e
    for x in range(n):
        for y in range(m):
            if s['lat'] == 'pbc' or y + 1 < m:
                e.append((x * m + y, x * m + (y + 1) % m, b))
            if s['lat'] == 'pbc' or x + 1 < n:
                e.append((x * m + y, (x + 1) % n * m + y, a))
    f = gf.squareLatticePBC if s['lat'] == 'pbc' else gf.squareLatticeFBC
    return (f(n, weight=w) if n == m and s['one'] else f(n, m, weight=w)), e


def canon(edges):
    return sorted(((i, -1) if j is None else (min(i, j), max(i, j))) + (w,) for i, j, w in edges)


def check_edges(o, model, what):
    es = o.getEdges()
    if len(set(id(e) for e in es)) != len(es):
        raise Violation('edges', '%s: the list of edges has the same edge twice' % what)
    got = canon(read(o))
    if got != canon(model):
        raise Violation('edges', '%s: edges %s, expected %s' % (what, got, canon(model)))


def ends(edges, v):
    return [k for k, (i, j, w) in enumerate(edges) for x in ((i,) if j is None else (i, j)) if x == v]


def opt(g, typical):
    """Independent minimum of the total cost over all orders (dense tensors)."""
    n = g.n
    full = (1 << n) - 1
    outer = {}
    for x in range(1, full + 1):
        s = []
        for k, (i, j, w) in enumerate(g.e):
            inside = (x >> i & 1) + (0 if j is None else x >> j & 1)
            if inside == 1:
                s.append(k)
        outer[x] = s

    def cost(a, b):
        u = set(outer[a]) | set(outer[b])
        if typical is not None:
            return typical ** len(u)
        c = 1
        for k in u:
            c *= g.e[k][2]
        return c
    best = {1 << i: 0 for i in range(n)}
    for x in sorted(range(1, full + 1), key=lambda y: bin(y).count('1')):
        if x in best:
            continue
        low = x & -x
        c = None
        y = (x - 1) & x
        while y:
            if y & low:
                d = best[y] + best[x ^ y] + cost(y, x ^ y)
                c = d if c is None or d < c else c
            y = (y - 1) & x
        best[x] = c
    return best[full], cost


def run_seq(seq, n, cost, what):
    """Total cost of an order; raises if it is not a contraction of all n tensors into one."""
    at = {i: 1 << i for i in range(n)}
    tot = 0
    for a, b in seq:
        if a == b or a not in at or b not in at:
            raise Violation('order', '%s: order %s contracts a tensor that is gone' % (what, seq))
        if cost is not None:
            tot += cost(at[a], at[b])
        x = at[a] | at[b]
        del at[max(a, b)]
        at[min(a, b)] = x
    if len(at) != 1:
        raise Violation('order', '%s: order %s leaves %d tensors' % (what, seq, len(at)))
    return tot


def ask(op, g, o):
    """The query as a function of a graph object, or None."""
    rng = random.Random('c19/%s' % op['s'])
    k = op['op']
    if k == 'edges':
        return lambda: read(o)
    if k == 'degree':
        return lambda: [o.v[i].degree for i in range(g.n)]
    if k == 'index':
        if not g.tensor:
            return None
        return lambda: (o.addEdgeIndex(), sorted(e.index for e in o.getEdges()))[1]
    if k == 'other':
        return lambda: [[e.anotherSide(e.vertices[0]).index, e.anotherSide(e.vertices[1]).index] for e in o.getEdges() if e.vertices[1] is not None]
    if k == 'plan':
        if not g.tensor:
            return None
        mode = rng.choice(['bf', 'greedy', 'cap', 'cap'])
        td = rng.choice([None, None, 2, 10])
        op['mode'], op['td'] = mode, td
        return lambda: [list(x) for x in o.optimalContractSequence(bf=mode == 'bf', greedy=mode == 'greedy', typicalDim=td)]
    if k == 'cost':
        if not g.tensor:
            return None
        return lambda: int(o.optimalCostResult())
    if g.tensor or any(j is None for i, j, w in g.e):
        return None
    if k == 'Z':
        if g.n > 7:
            return None
        return lambda: float(to_np(ctl.Ising.exactZFromGraphIsing(o)))
    if k == 'ising':
        if any(i == j for i, j, w in g.e) or any(len(ends(g.e, v)) == 0 or len(ends(g.e, v)) > 6 for v in range(g.n)) or len(g.e) > 24 or g.n > 12:
            return None
        return lambda: ctl.Ising.IsingTNFromUndirectedGraph(o)
    return None


def zref(g):
    s = np.array(list(itertools.product((1, -1), repeat=g.n)))
    return np.exp(sum((w * s[:, i] * s[:, j] for i, j, w in g.e), np.zeros(len(s)))).sum()


def run(spec, sim):
    gs = [G(s) for s in spec['gs']]
    for oi, op in enumerate(spec['ops']):
        op = dict(op)
        g = gs[op['g'] % len(gs)]
        k = op['op']
        rng = random.Random('c19e/%s' % op['s'])
        what = 'step %d (%s) on a %s graph with %d vertices' % (oi, k, g.spec['kind'], g.n)
        if k in ('add', 'free'):
            if len(g.e) >= (g.most or (12 if g.tensor else 16)) or (k == 'free' and not g.tensor):
                continue
            i = rng.randrange(g.n)
            j = None
            if k == 'add':
                if g.n < 2:
                    continue
                j = rng.choice([x for x in range(g.n) if x != i])
            if len(ends(g.e, i)) >= 5 or (j is not None and len(ends(g.e, j)) >= 5):
                continue
            w = rng.choice([2, 2, 3, 4, 5]) if g.tensor else round(rng.uniform(0.1, 0.9), 3)
            o = sim.call(lambda: put(g.o, i, j, w))
            sim.expect_ok(o, what)
            if k == 'add':
                e = o.value
                if e is None or tuple(v.index for v in e.vertices) != (i, j) or e.weight != w:
                    raise Violation('edges', '%s: returned %s for an edge between %d and %d of weight %s' % (what, e, i, j, w))
            g.e.append((i, j, w))
            g.planned = None
            g.unsure = False
            if g.queried:
                sim.nontrivial = True
            sim.note(what, i, j, w)
            continue
        if k == 'bad':
            i = rng.randrange(g.n)
            b = rng.choice([g.n, -1, g.n + 3, -g.n - 1])
            a, c = rng.choice([(i, b), (b, i), (b, b)])
            o = sim.call(lambda: g.o.addEdge(a, c, weight=2))
            if o.kind != 'raised':
                raise Violation('accepted', '%s: an edge between %d and %d was accepted' % (what, a, c))
            sim.nontrivial = True
            sim.count('rejected')
            check_edges(g.o, g.e, what)
            sim.note(what, 'rejected')
            sim.state(g.spec['kind'], k, type(o.exc).__name__)
            continue
        fn = ask(op, g, g.o)
        if fn is None:
            continue
        f = op.get('fault')
        if f is not None:
            sub = dict(op)
            tw0 = g.fresh()
            o = sim.call(fn, f, dry=ask(sub, g, tw0))
        else:
            o = sim.call(fn)
        g.queried = True
        sim.state(g.spec['kind'], k, op.get('mode'), o.kind, sim.where if o.fired else None, g.n, len(g.e))
        if o.kind == 'fault':
            sim.note(what, 'stopped at', sim.where)
            sim.count('queries_stopped')
            if k in ('plan', 'cost'):
                g.unsure = True
            check_edges(g.o, g.e, what + ' stopped at %s' % sim.where)
            continue
        sim.expect_ok(o, what)
        tw = g.fresh()
        if k == 'cost':
            opts = []
            if g.planned is not None:
                tw.optimalContractSequence(**g.planned)
                opts.append(int(tw.optimalCostResult()))
            if g.planned is None or g.unsure:
                opts.append(int(g.fresh().optimalCostResult()))
            if o.value not in opts:
                raise Violation('stale', '%s: cost %s, a fresh graph with the same edges gives %s' % (what, o.value, opts))
            if g.planned is None:
                g.planned = dict(bf=False, greedy=False, typicalDim=10)
            sim.note(what, o.value)
            continue
        want = ask(dict(op), g, tw)()
        if k == 'ising':
            a, b = [[[x.name, x.dim, None if x.bond is None else ref.other(x).name] for x in t.legs] for t in o.value], [[[x.name, x.dim, None if x.bond is None else ref.other(x).name] for x in t.legs] for t in want]
            if a != b:
                raise Violation('stale', '%s: tensors %s, a fresh graph gives %s' % (what, a, b))
            ref.check_struct(o.value, what)
            l, z = ref.einsum_value(o.value)
            if l or not ref.close(np.asarray(z).reshape(()), np.asarray(zref(g)), 1e-8):
                raise Violation('wrong-value', '%s: the network has value %s, expected %s' % (what, z, zref(g)))
            sim.note(what, len(a))
            continue
        if k == 'Z':
            if not np.isclose(o.value, zref(g), rtol=1e-9):
                raise Violation('wrong-value', '%s: partition function %s, expected %s' % (what, o.value, zref(g)))
            sim.note(what, '%.6e' % o.value)
            continue
        if o.value != want:
            raise Violation('stale', '%s: answer %s, a fresh graph with the same edges gives %s' % (what, o.value, want))
        if k == 'edges':
            check_edges(g.o, g.e, what)
        if k == 'degree' and o.value != [len(ends(g.e, v)) for v in range(g.n)]:
            raise Violation('edges', '%s: degrees %s, expected %s' % (what, o.value, [len(ends(g.e, v)) for v in range(g.n)]))
        if k == 'index' and o.value != list(range(len(g.e))):
            raise Violation('edges', '%s: indices of edges %s' % (what, o.value))
        if k == 'plan':
            dense = g.spec['kind'] == 'tensor'
            best, cost = opt(g, op['td'] if op['mode'] != 'greedy' else None) if dense else (None, None)
            tot = run_seq(o.value, g.n, cost, what)
            if op['mode'] != 'greedy':
                if dense:
                    c = int(g.o.optimalCostResult())
                    if c != tot:
                        raise Violation('cost', '%s: cost %s reported for an order that costs %s' % (what, c, tot))
                    if tot != best:
                        raise Violation('not-optimal', '%s: %s search gives an order of cost %s, the best is %s' % (what, op['mode'], tot, best))
                g.planned = dict(bf=op['mode'] == 'bf', greedy=False, typicalDim=op['td'])
                g.unsure = False
            elif dense and (int(g.o.greedyCost) != tot or tot < best):
                raise Violation('cost', '%s: greedy cost %s reported for an order that costs %s (best %s)' % (what, g.o.greedyCost, tot, best))
            sim.count('plans')
        sim.note(what, o.value)
