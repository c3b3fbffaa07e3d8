"""C28: modules imported in random orders from a simulated disk with read errors, then used together."""
import errno
import importlib
import importlib.abc
import importlib.machinery
import os
import random
import sys

import numpy as np

from .. import core, ctl
from ..core import SimInterrupt, SimIOError, SimOOM, Violation

RUNS = {'quick': 1500, 'thorough': 20000}
BATCH = 25
RULE = ('Between 1 and all modules of the package imported in random order into a process that has none of them, some imports stopped by a read error, exhausted memory or an interrupt '
        'while a file is read and repeated; then a small computation through the imported modules. Non-trivial: at least two modules asked for, or a fault.')
STATES = 'hash of (module imported, modules loaded before, outcome)'
REAL = 'all CTL modules, executed anew in every run'
STUBS = 'the disk the modules are read from (importer)'

SRC = os.path.join(core.REPO, 'src')
CODE = {}


def modules():
    out = []
    for d, sub, fs in os.walk(os.path.join(SRC, 'CTL')):
        sub[:] = sorted(s for s in sub if s not in ('tests', '__pycache__'))
        rel = os.path.relpath(d, SRC).replace(os.sep, '.')
        for f in sorted(fs):
            if f == '__init__.py':
                out.append(rel)
            elif f.endswith('.py') and f[:-3].isidentifier():
                out.append(rel + '.' + f[:-3])
    return sorted(out)


MODULES = modules()


def gen(rng, tier, i):
    n = len(MODULES)
    if i < n:
        order = [i]
    else:
        order = rng.sample(range(n), min(n, rng.choice([1, 2, 2, 3, 3, 4, 5, n])))
    ops = []
    for k in order:
        op = dict(m=k)
        if rng.random() < 0.35:
            op['fault'] = dict(kind=rng.choice(['eio', 'emfile', 'oom', 'kbd']), at=rng.choice([0, 1, 2, 3, 4, 6, 9]))
        ops.append(op)
    return dict(ops=ops, s=rng.randrange(1 << 30))


class Disk(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Serves the package from its source files."""

    def __init__(self, sim):
        self.sim = sim
        self.plan = None
        self.reads = 0

    def find_spec(self, name, path=None, target=None):
        if name != 'CTL' and not name.startswith('CTL.'):
            return None
        p = os.path.join(SRC, *name.split('.'))
        pkg = os.path.isdir(p)
        f = os.path.join(p, '__init__.py') if pkg else p + '.py'
        if not os.path.exists(f):
            if not pkg:
                return None
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        spec = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [p]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        n = self.reads
        self.reads += 1
        p = self.plan
        if p is not None and n == p['at']:
            self.plan = None
            self.sim.fired('disk_' + p['kind'])
            if p['kind'] == 'oom':
                raise SimOOM('reading %s' % f)
            if p['kind'] == 'kbd':
                raise SimInterrupt('reading %s' % f)
            e = errno.EIO if p['kind'] == 'eio' else errno.EMFILE
            raise SimIOError(e, os.strerror(e), f)
        if f not in CODE:
            with open(f, 'rb') as g:
                CODE[f] = compile(g.read(), f, 'exec', dont_inherit=True)
        exec(CODE[f], module.__dict__)


def ours():
    return [k for k in sys.modules if k == 'CTL' or k.startswith('CTL.')]


def run(spec, sim):
    saved = {k: sys.modules[k] for k in ours()}
    disk = Disk(sim)
    meta = list(sys.meta_path)
    for k in saved:
        del sys.modules[k]
    sys.meta_path.insert(0, disk)
    try:
        body(spec, sim, disk)
    finally:
        sys.meta_path[:] = meta
        for k in ours():
            del sys.modules[k]
        sys.modules.update(saved)


def body(spec, sim, disk):
    if len(spec['ops']) > 1:
        sim.nontrivial = True
    for oi, op in enumerate(spec['ops']):
        name = MODULES[op['m'] % len(MODULES)]
        what = 'step %d (import %s)' % (oi, name)
        loaded = ','.join(sorted(ours()))
        for rep in range(2):
            disk.plan = dict(op['fault']) if rep == 0 and 'fault' in op else None
            disk.reads = 0
            try:
                m = importlib.import_module(name)
                kind = 'ok'
            except (SimIOError, SimOOM, SimInterrupt) as e:
                kind = type(e).__name__
            except Exception as e:
                kind = 'raised'
                err = '%s: %s' % (type(e).__name__, e)
            fired = disk.plan is None and rep == 0 and 'fault' in op
            disk.plan = None
            sim.note(what, kind)
            sim.state(name, loaded, kind)
            if kind == 'raised':
                raise Violation('import', '%s after %s: %s' % (what, loaded or 'nothing', err))
            if kind != 'ok' and not fired:
                raise Violation('import', '%s: %s without a fault' % (what, kind))
            if kind == 'ok':
                if m is not sys.modules[name]:
                    raise Violation('import', '%s: not the module that is registered' % what)
                break
        else:
            raise Violation('import', '%s does not work after a failed import' % what)
    use(spec, sim)


def use(spec, sim):
    """The imported modules work together, whichever came first."""
    imp = importlib.import_module
    try:
        T = imp('CTL.tensor.tensor').Tensor
        D = imp('CTL.tensor.diagonalTensor').DiagonalTensor
        C = imp('CTL.tensor.contract.contract')
        L = imp('CTL.tensor.contract.link')
        F = imp('CTL.tensornetwork.tensornetwork').FiniteTensorNetwork
        rs = np.random.RandomState(spec['s'] % (2 ** 32))
        x, v, y = rs.uniform(-1, 1, (2, 3)), rs.uniform(-1, 1, 3), rs.uniform(-1, 1, (3, 2))
        want = x @ np.diag(v) @ y
        a, d, b = T(data=x, labels=['a', 'x']), D(data=v, labels=['x', 'y'], shape=(3, 3)), T(data=y, labels=['y', 'b'])
        L.makeLink('x', 'x', a, d)
        L.makeLink('y', 'y', d, b)
        p = (a @ d) @ b if spec['s'] % 2 else C.contractTwoTensors(a, C.contractTwoTensors(d, b))
        got = np.asarray(p.toTensor(['a', 'b']))
        dd = D(data=v, labels=['x', 'y'], shape=(3, 3))
        de = D(data=v, labels=['x', 'y'], shape=(3, 3))
        L.makeLink('y', 'x', dd, de)
        q = dd @ de
        f = F(['a', 'd'])
        f.addLink('a', 'x', 'd', 'x')
        r = f.contract({'a': T(data=x, labels=['a', 'x']), 'd': D(data=v, labels=['x', 'y'], shape=(3, 3))})
        got2 = np.asarray(r.toTensor(['a', 'y']))
    except Exception as e:
        raise Violation('use', 'after importing %s: %s: %s' % (','.join(MODULES[o['m'] % len(MODULES)] for o in spec['ops']), type(e).__name__, e))
    if type(q) is not D or type(p) is not T or not np.allclose(got, want) or not np.allclose(got2, x @ np.diag(v)) or not np.allclose(np.asarray(q.a), v * v):
        raise Violation('use', 'contraction through freshly imported modules is wrong')
    # one object for every class, however many modules refer to it
    seen = {}
    for k in sorted(ours()):
        for n, o in sorted(vars(sys.modules[k]).items()):
            if isinstance(o, type) and str(o.__module__).startswith('CTL.'):
                if seen.setdefault((o.__module__, n), o) is not o:
                    raise Violation('use', 'two different classes %s.%s are loaded' % (o.__module__, n))
