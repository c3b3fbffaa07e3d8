"""Imports the code under test from the current working tree, with the lock seam and the hash seam in place."""
import os
import sys
import inspect

from . import core, sched

sys.path.insert(0, os.path.join(core.REPO, 'src'))
sched.install_locks()

import CTL  # noqa: E402
import CTL.tensor.leg as ctl_leg  # noqa: E402
import CTL.tensor.tensor  # noqa: E402
import CTL.tensor.diagonalTensor  # noqa: E402
import CTL.tensor.tensorFunc as tensorFunc  # noqa: E402
import CTL.tensor.tensorFactory as tensorFactory  # noqa: E402
import CTL.tensor.contract.contract as contract  # noqa: E402
import CTL.tensor.contract.link as link  # noqa: E402
import CTL.tensor.contract.optimalContract as optimalContract  # noqa: E402
import CTL.tensor.contract.tensorGraph as tensorGraph  # noqa: E402
import CTL.tensor.contract.contractExp as contractExp  # noqa: E402
import CTL.tensornetwork.tensornetwork as tensornetwork  # noqa: E402
import CTL.tensornetwork.tensordict as tensordict  # noqa: E402
import CTL.funcs.funcs as funcs  # noqa: E402
import CTL.funcs.graph as graph  # noqa: E402
import CTL.funcs.graphFuncs as graphFuncs  # noqa: E402
import CTL.funcs.linalg as linalg  # noqa: E402
import CTL.funcs.decompose as decompose  # noqa: E402
import CTL.funcs.stringSet as stringSet  # noqa: E402
import CTL.funcs.xplib as xplib  # noqa: E402
import CTL.examples.HOTRG as HOTRG  # noqa: E402
import CTL.examples.TRG as TRG  # noqa: E402
import CTL.examples.CTMRG as CTMRG  # noqa: E402
import CTL.examples.MPS as MPS  # noqa: E402
import CTL.examples.Schimdt as Schimdt  # noqa: E402
import CTL.examples.impurity as impurity  # noqa: E402
import CTL.models.Ising as Ising  # noqa: E402

assert os.path.realpath(CTL.__file__).startswith(os.path.realpath(core.REPO) + os.sep), CTL.__file__

Tensor = CTL.tensor.tensor.Tensor
TensorLike = CTL.tensor.tensor.TensorLike
DiagonalTensor = CTL.tensor.diagonalTensor.DiagonalTensor
Leg = ctl_leg.Leg
FTN = tensornetwork.FiniteTensorNetwork
TensorDict = tensordict.TensorDict


# -- hash seam ---------------------------------------------------------------
class _Hash:
    n = 0
    ids = 0
    mult = 1
    add = 0


def _simhash(self):
    h = self.__dict__.get('_simhash')
    if h is None:
        _Hash.n += 1
        h = (_Hash.n * _Hash.mult + _Hash.add) & 0x7fffffffffff
        self.__dict__['_simhash'] = h
    return h


def set_hash(mult=1, add=0):
    """Fixes where the run's objects land in hash tables; (1, 0) is creation order."""
    _Hash.n = 0
    _Hash.ids = 0
    _Hash.mult = mult
    _Hash.add = add


def _install_hash():
    seen = set()
    for m in list(sys.modules.values()):
        if m is None or not getattr(m, '__name__', '').startswith('CTL'):
            continue
        for c in list(vars(m).values()):
            if inspect.isclass(c) and c.__module__.startswith('CTL') and c not in seen:
                seen.add(c)
                if c.__hash__ is object.__hash__ and getattr(c, '__dictoffset__', 0) != 0 and not issubclass(c, BaseException):
                    try:
                        c.__hash__ = _simhash
                    except TypeError:
                        pass


_install_hash()


def _simid(o):
    """id() as seen by the code under test: unique per live object, placed by the run's layout."""
    d = getattr(o, '__dict__', None)
    if type(o).__hash__ is not _simhash or d is None:
        return id(o)
    n = d.get('_simid')
    if n is None or n[1] != id(o):       # a deep copy is another object
        _Hash.ids += 1
        n = d['_simid'] = ((_Hash.ids * (_Hash.mult | 1) + _Hash.add) & 0x7fffffffffff, id(o))
    return n[0] << 4


def _install_id():
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith('CTL') and 'id' not in vars(m):
            m.__dict__['id'] = _simid


_install_id()


def setXP(x):
    CTL.setXP(x)
