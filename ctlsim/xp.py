"""Simulated numeric backends, selected through the code's own seam CTL.setXP.

HostXP   : a module-like proxy around numpy whose arrays (SimArray) are ndarray
           subclasses, so that operators are intercepted as well as functions.
DeviceXP : a module-like proxy whose arrays (DevArray) hold their data privately:
           like device memory they cannot be read implicitly by numpy, reductions
           return 0-d arrays, and mixing with host arrays is refused.

Every operation is counted, is a possible fault point and a possible thread switch.
"""
import numbers
import sys
import types

import numpy as np

from .core import Sim


def _flops(name, args, out):
    s = Sim.current
    if s is None:
        return
    try:
        if name == 'multiply.outer':
            s.flops += int(np.size(out))
        elif name == 'einsum' and isinstance(args[0], str):
            dims, rest = {}, 1
            for sub, x in zip(args[0].split('->')[0].split(','), args[1:]):
                sub, sh = sub.strip().replace('...', '.'), list(np.shape(x))
                k = len(sh) - len(sub.replace('.', ''))
                for c in sub:
                    if c == '.':
                        rest *= int(np.prod(sh[:k], dtype=float))
                        del sh[:k]
                    else:
                        dims[c] = sh.pop(0)
            s.flops += rest * int(np.prod(list(dims.values()), dtype=float))
        elif name in ('matmul', 'dot'):
            a, b = args[0], args[1]
            s.flops += int(np.prod(np.shape(a), dtype=float)) * int(np.shape(b)[-1])
    except Exception:
        pass


def _tiny(r):
    """Note a decomposition whose singular values are all below 1e-10, or some that are not small next to the largest."""
    s = Sim.current
    if s is not None and isinstance(r, tuple) and len(r) == 3 and r[1].size:
        v = r[1]
        if v[0] <= 1e-10 or np.any((v <= 1e-10) & (v > 1e-8 * v[0])):
            s.tiny = True


# questions about types and shapes: no work, so nothing that can fail
METADATA = frozenset(['issubdtype', 'result_type', 'shape', 'ndim', 'size', 'iscomplexobj', 'isrealobj', 'isscalar', 'promote_types', 'can_cast', 'dtype', 'finfo'])


class _Backend:
    def __init__(self, tag):
        self.tag = tag
        self.ncalls = 0
        self.names = {}
        self.alien = 0      # arrays of another backend seen
        self._cache = {}

    def tick(self, name):
        self.ncalls += 1
        self.names[name] = self.names.get(name, 0) + 1
        s = Sim.current
        if s is not None:
            s.on_backend(name)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self.tag)


# --------------------------------------------------------------------------
class SimArray(np.ndarray):
    _bk = None

    def __array_finalize__(self, obj):
        if obj is not None:
            self._bk = getattr(obj, '_bk', None)

    def _sim_raw(self):
        return self.view(np.ndarray)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        bk = self._bk
        if bk is None:
            for x in inputs:
                if isinstance(x, SimArray) and x._bk is not None:
                    bk = x._bk
                    break
        nm = ufunc.__name__ if method == '__call__' else ufunc.__name__ + '.' + method
        if bk is not None:
            bk.tick(nm)
        ins = tuple(bk.unwrap(x) if bk is not None else _plain(x) for x in inputs)
        if out is not None:
            outs = tuple(_plain(o) if o is not None else None for o in out)
            r = getattr(ufunc, method)(*ins, out=outs, **kw)
            return out[0] if len(out) == 1 else out
        r = getattr(ufunc, method)(*ins, **kw)
        if ufunc.__name__ == 'matmul':
            _flops('matmul', ins, r)
        return bk.wrap(r) if bk is not None else r

    def __array_function__(self, func, types_, args, kw):
        bk = self._bk
        if bk is not None:
            bk.direct = getattr(bk, 'direct', 0) + 1
            bk.tick('numpy:' + func.__name__)
            r = func(*bk.unwrap(args), **bk.unwrap(kw))
            return bk.wrap(r)
        return func(*_plain(args), **_plain(kw))


def _plain(x):
    if isinstance(x, SimArray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(_plain(y) for y in x)
    if type(x) is dict:
        return {k: _plain(v) for k, v in x.items()}
    return x


class _Ufunc:
    """A ufunc of a simulated backend: callable, with .outer/.reduce/..."""

    def __init__(self, bk, uf):
        self._bk = bk
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        return self._bk._invoke(self._uf.__name__, self._uf, a, k)

    def outer(self, *a, **k):
        return self._bk._invoke(self._uf.__name__ + '.outer', self._uf.outer, a, k)

    def reduce(self, *a, **k):
        return self._bk._invoke(self._uf.__name__ + '.reduce', self._uf.reduce, a, k)

    def accumulate(self, *a, **k):
        return self._bk._invoke(self._uf.__name__ + '.accumulate', self._uf.accumulate, a, k)

    def at(self, *a, **k):
        return self._bk._invoke(self._uf.__name__ + '.at', self._uf.at, a, k)


class _Sub:
    """Sub-namespace such as linalg or fft."""

    def __init__(self, bk, mod, prefix):
        self._bk = bk
        self._mod = mod
        self._prefix = prefix

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        v = self._bk._attr(self._prefix + '.' + k, getattr(self._mod, k))
        self.__dict__[k] = v
        return v


class _Random:
    def __init__(self, bk):
        self._bk = bk

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if not hasattr(np.random.RandomState, k):
            raise AttributeError(k)
        bk = self._bk

        def f(*a, **kw):
            bk.tick('random.' + k)
            s = Sim.current
            rs = s.nprng if s is not None else np.random.RandomState(0)
            return bk.wrap(getattr(rs, k)(*a, **kw))
        return f


class HostXP(_Backend):
    device = False

    def wrap(self, r):
        if isinstance(r, np.ndarray):
            v = r.view(SimArray)
            v._bk = self
            return v
        if type(r) is tuple:
            return tuple(self.wrap(x) for x in r)
        if type(r) is list:
            return [self.wrap(x) for x in r]
        if isinstance(r, tuple) and hasattr(r, '_fields'):
            return type(r)(*[self.wrap(x) for x in r])
        return r

    def unwrap(self, x):
        if isinstance(x, SimArray):
            if x._bk is not None and x._bk is not self:
                self.alien += 1
                raise TypeError('array of backend %s passed to backend %s' % (x._bk.tag, self.tag))
            return x.view(np.ndarray)
        if isinstance(x, DevArray):
            self.alien += 1
            raise TypeError('Implicit conversion of a device array to a host array is not allowed')
        if type(x) in (list, tuple):
            return type(x)(self.unwrap(y) for y in x)
        if type(x) is dict:
            return {k: self.unwrap(v) for k, v in x.items()}
        return x

    def _invoke(self, name, f, a, k):
        if name not in METADATA:
            self.tick(name)
        a = self.unwrap(a)
        k = self.unwrap(k)
        r = f(*a, **k)
        if name in ('matmul', 'dot', 'multiply.outer', 'einsum'):
            _flops(name, a, r)
        elif name == 'linalg.svd':
            _tiny(r)
        return self.wrap(r)

    def _attr(self, name, v):
        if isinstance(v, np.ufunc):
            return _Ufunc(self, v)
        if isinstance(v, types.ModuleType):
            return _Sub(self, v, name)
        if isinstance(v, type) or not callable(v):
            return v

        def f(*a, **k):
            return self._invoke(name, v, a, k)
        f.__name__ = name
        return f

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k == 'random':
            v = _Random(self)
        else:
            v = self._attr(k, getattr(np, k))
        self.__dict__[k] = v
        return v


# --------------------------------------------------------------------------
class DevArray:
    """Array on the simulated device."""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, bk, raw):
        self._bk = bk
        self._raw = raw

    def _sim_raw(self):
        return self._raw

    def __array__(self, *a, **k):
        raise TypeError('Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy array explicitly.')

    def __array_function__(self, func, types_, args, kw):
        raise TypeError('numpy.%s called on a device array' % func.__name__)

    # metadata: no device work
    shape = property(lambda s: s._raw.shape)
    ndim = property(lambda s: s._raw.ndim)
    size = property(lambda s: s._raw.size)
    dtype = property(lambda s: s._raw.dtype)
    nbytes = property(lambda s: s._raw.nbytes)

    def __len__(self):
        return len(self._raw)

    def _w(self, r):
        return self._bk.wrap(r)

    T = property(lambda s: s._w(s._raw.T))
    real = property(lambda s: s._w(s._raw.real))
    imag = property(lambda s: s._w(s._raw.imag))
    flat = property(lambda s: iter([s._w(x) for x in s._raw.flat]))

    def __getitem__(self, i):
        return self._w(self._raw[self._bk.unwrap(i)])

    def __setitem__(self, i, v):
        self._bk.tick('setitem')
        if isinstance(v, np.ndarray) and v.ndim > 0:
            raise TypeError('host array assigned into a device array')
        self._raw[self._bk.unwrap(i)] = self._bk.unwrap(v)

    def __iter__(self):
        for x in self._raw:
            yield self._w(x)

    def __bool__(self):
        return bool(self._raw)

    def __float__(self):
        return float(self._raw)

    def __int__(self):
        return int(self._raw)

    def __complex__(self):
        return complex(self._raw)

    def __index__(self):
        return self._raw.__index__()

    def __format__(self, spec):
        return format(self._raw, spec) if self._raw.ndim else str(self._raw)

    def __repr__(self):
        return 'DevArray%s' % (self._raw.shape,)

    def item(self, *a):
        return self._raw.item(*a)

    def tolist(self):
        return self._raw.tolist()

    def get(self):
        return np.array(self._raw)

    def __deepcopy__(self, memo):
        return DevArray(self._bk, self._raw.copy())

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        m = getattr(self._raw, k)
        if callable(m):
            bk = self._bk

            def f(*a, **kw):
                bk.tick('method.' + k)
                return bk.wrap(getattr(self._raw, k)(*bk.unwrap(a), **bk.unwrap(kw)))
            return f
        raise AttributeError(k)


def _binop(name, uf, inplace=False, reflected=False):
    def op(self, other):
        bk = self._bk
        bk.tick(name)
        o = bk.unwrap(other, operand=True)
        if inplace:
            r = uf(self._raw, o, out=self._raw)
            return self
        r = uf(o, self._raw) if reflected else uf(self._raw, o)
        if name == 'matmul':
            _flops('matmul', (o, self._raw) if reflected else (self._raw, o), r)
        return bk.wrap(r)
    return op


for _n, _u in [('add', np.add), ('sub', np.subtract), ('mul', np.multiply), ('truediv', np.true_divide),
               ('matmul', np.matmul), ('pow', np.power), ('floordiv', np.floor_divide), ('mod', np.remainder),
               ('and', np.bitwise_and), ('or', np.bitwise_or), ('xor', np.bitwise_xor)]:
    setattr(DevArray, '__%s__' % _n, _binop(_u.__name__, _u))
    setattr(DevArray, '__r%s__' % _n, _binop(_u.__name__, _u, reflected=True))
    if _n != 'matmul':
        setattr(DevArray, '__i%s__' % _n, _binop(_u.__name__, _u, inplace=True))
for _n, _u in [('lt', np.less), ('le', np.less_equal), ('gt', np.greater), ('ge', np.greater_equal),
               ('eq', np.equal), ('ne', np.not_equal)]:
    setattr(DevArray, '__%s__' % _n, _binop(_u.__name__, _u))
for _n, _u in [('neg', np.negative), ('abs', np.absolute), ('invert', np.invert), ('pos', np.positive)]:
    def _mk(u):
        def op(self):
            self._bk.tick(u.__name__)
            return self._bk.wrap(u(self._raw))
        return op
    setattr(DevArray, '__%s__' % _n, _mk(_u))
DevArray.__hash__ = object.__hash__


class DeviceXP(HostXP):
    device = True

    def wrap(self, r):
        if isinstance(r, np.ndarray):
            return DevArray(self, r)
        if isinstance(r, np.generic):
            return DevArray(self, np.array(r))
        if type(r) is tuple:
            return tuple(self.wrap(x) for x in r)
        if type(r) is list:
            return [self.wrap(x) for x in r]
        if isinstance(r, tuple) and hasattr(r, '_fields'):
            return type(r)(*[self.wrap(x) for x in r])
        return r

    def unwrap(self, x, operand=False, explicit=False):
        if isinstance(x, DevArray):
            if x._bk is not self:
                self.alien += 1
                raise TypeError('array of backend %s passed to backend %s' % (x._bk.tag, self.tag))
            return x._raw
        if isinstance(x, np.ndarray):
            if explicit:
                return _plain(x)
            self.alien += 1
            raise TypeError('Unsupported type <class \'numpy.ndarray\'> for a device operation')
        if type(x) in (list, tuple):
            return type(x)(self.unwrap(y, explicit=explicit) for y in x)
        if type(x) is dict:
            return {k: self.unwrap(v, explicit=explicit) for k, v in x.items()}
        return x

    def _invoke(self, name, f, a, k):
        if name not in METADATA:
            self.tick(name)
        explicit = name in ('array', 'asarray')     # explicit host -> device transfer
        a = self.unwrap(a, explicit=explicit)
        k = self.unwrap(k, explicit=explicit)
        r = f(*a, **k)
        if name in ('matmul', 'dot', 'multiply.outer', 'einsum'):
            _flops(name, a, r)
        if name not in METADATA and type(r) in (int, float, bool, complex):
            return DevArray(self, np.array(r))      # counts and tests are results on the device too
        return self.wrap(r)

    def asnumpy(self, x):
        self.tick('asnumpy')
        return x.get() if isinstance(x, DevArray) else np.asarray(x)

    def issubdtype(self, *a):
        return np.issubdtype(*a)


# --------------------------------------------------------------------------
# numpy itself, as code under test sees it when it imports it past the seam
DIRECT = None       # a list while such calls are to be noted
HARMLESS = METADATA | frozenset(['prod', 'isscalar', 'common_type', 'min_scalar_type', 'broadcast_shapes', 'errstate', 'seterr', 'geterr', 'printoptions', 'set_printoptions', 'iinfo', 'isfortran', 'may_share_memory', 'shares_memory'])


# done on plain lists of numbers or names (positions, dimensions, counts) these are bookkeeping, no numerical work
LISTWORK = frozenset(['sum', 'cumsum', 'cumprod', 'max', 'min', 'amax', 'amin', 'argsort', 'argmax', 'argmin', 'sort', 'unique', 'lexsort', 'any', 'all', 'array_equal', 'isin', 'in1d', 'setdiff1d', 'intersect1d', 'union1d', 'searchsorted', 'ravel_multi_index', 'count_nonzero', 'bincount', 'diff', 'roll'])


def _host(a):
    return all(_host(x) if isinstance(x, (list, tuple)) else not isinstance(x, (np.ndarray, DevArray)) for x in a)


class _Watched:
    """A numpy function that notes that it was called."""

    def __init__(self, f, name):
        self._f, self._name = f, name

    def __call__(self, *a, **k):
        r = self._f(*a, **k)
        if DIRECT is not None and not (self._name in LISTWORK and _host(a) and _host(list(k.values())) and np.asarray(r).dtype.kind in 'biuUS'):
            DIRECT.append(self._name)
        return r

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return _watched(getattr(self._f, k), self._name + '.' + k)


def _watched(v, name):
    if isinstance(v, types.ModuleType):
        return NumpyWatch(v, name) if v.__name__.startswith('numpy') else v
    if isinstance(v, type) or not callable(v) or name.split('.')[-1] in HARMLESS:
        return v
    return _Watched(v, name)


class NumpyWatch(types.ModuleType):
    def __init__(self, mod, prefix=''):
        super().__init__(mod.__name__)
        self.__dict__.update(_mod=mod, _prefix=prefix, __path__=getattr(mod, '__path__', []), __spec__=getattr(mod, '__spec__', None))

    def __getattr__(self, k):
        v = getattr(self.__dict__['_mod'], k)
        if k.startswith('__') or not sys._getframe(1).f_globals.get('__name__', '').startswith('CTL'):
            return v
        p = self.__dict__['_prefix']
        return _watched(v, p + '.' + k if p else k)


def watch_numpy(modules):
    """Lets the code under test see numpy, imported directly, through NumpyWatch; the selected backend stays as it is."""
    w = NumpyWatch(np)
    for m in modules:
        for k, v in list(vars(m).items()):
            if m.__name__ == 'CTL.funcs.xplib' and k == 'xp':
                continue
            if v is np:
                setattr(m, k, w)
            elif isinstance(v, types.ModuleType) and v.__name__.startswith('numpy.'):
                setattr(m, k, _watched(v, v.__name__[6:]))
            elif not isinstance(v, type) and callable(v) and (isinstance(v, np.ufunc) or (getattr(v, '__module__', None) or '').split('.')[0] == 'numpy'):
                setattr(m, k, _watched(v, v.__name__))
    return w
