"""Renormalisation drivers: state snapshots, injected failures, and reference models in plain numpy.

The reference models (HOTRG, impurities, square and triangle TRG, CTMRG) are written from the
algorithms, use no CTL code and no seam, and report how close each truncation was to a tie, so that a
run is only compared where the answer does not depend on rounding."""
import copy

import numpy as np

from . import ref
from .core import Violation, to_np

GAP = 1e-7


# -- snapshots ---------------------------------------------------------------
def tens(t):
    if t is None:
        return None
    return (tuple(g.name for g in t.legs), np.array(to_np(t.a)), t.degreeOfFreedom, tuple(g.bond is not None for g in t.legs))


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.array_equal(a, b))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def diff(old, new):
    """Names of what changed: 'x+1' for a list with one more entry, 'x' otherwise."""
    out = []
    for k in old:
        if same(old[k], new[k]):
            continue
        if isinstance(old[k], list) and len(new[k]) == len(old[k]) + 1 and same(old[k], new[k][:-1]):
            out.append(k + '+1')
        else:
            out.append(k)
    return out


def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b))))


class Guard:
    """Runs steps of a driver object; keeps it usable after a failure the known-findings file lists."""

    def __init__(self, sim, obj, state, tokens, name):
        self.sim, self.obj, self.state, self.tokens, self.name = sim, obj, state, tokens, name

    def call(self, op, fault, what, pure=False, keep=False):
        """op(obj).  pure: must not change the object at all.  Returns the Outcome."""
        sim = self.sim
        old = self.state(self.obj)
        backup = copy.deepcopy(self.obj) if fault is not None or keep else None
        o = sim.step(self.obj, op, fault)
        how = '%s stopped by %s at %s' % (what, fault['kind'], sim.where) if o.fired else what
        if o.kind != 'ok' or pure:
            new = self.state(self.obj)
            d = diff(old, new)
            if d:
                if pure or backup is None:
                    raise Violation('state-changed', '%s changed %s of the %s' % (how, d, self.name))
                tok = self.tokens(old, new, d, copy.deepcopy(backup))
                if tok is not None:          # None: a complete step of its own
                    sim.finding('partial-update', '%s: a failed %s left %s' % (self.name, what.split(' (')[-1].rstrip(')'), ', '.join(tok)))
                    self.obj = backup
                    sim.count('partial_updates_stepped_around')
        return o, how


# -- HOTRG -------------------------------------------------------------------
def env(a, d):
    """Environment of the two-site block for the legs on side d; legs of a: u, l, d, r."""
    if d in 'lr':
        m = np.einsum('ulxr,xmds->ulmdrs', a, a)       # upper, lower
        m = np.transpose(m, (1, 2, 0, 3, 4, 5)) if d == 'l' else np.transpose(m, (4, 5, 0, 3, 1, 2))
    else:
        m = np.einsum('uldx,vxer->uvlder', a, a)       # left, right
        m = np.transpose(m, (0, 1, 2, 5, 3, 4)) if d == 'u' else np.transpose(m, (3, 4, 2, 5, 0, 1))
    m = m.reshape(m.shape[0] * m.shape[1], -1)
    return m @ m.T


def project(a, d, chi):
    """(projector, error, safe, dropped): projector onto the leading eigenvectors of the environment."""
    w, v = np.linalg.eigh(env(a, d))
    n = int(np.sum(w > 1e-10))
    err = 0.0 if chi > n else float(1.0 - np.sum(w[-chi:]) / np.sum(w))
    k = min(chi, n)
    safe = k == len(w) or (w[-k] - w[-k - 1]) > 1e-6 * np.sqrt(abs(w[-k]) * w[-1]) or w[-k] < 1e-15 * w[-1]
    if np.any((w > 0.8e-10) & (w < 1.25e-10)):
        safe = False
    return v[:, -k:][:, ::-1], err, safe, float(np.sum(np.abs(w[:-k])) if k < len(w) else 0.0)


def coarse(a, b, d, p=None):
    if d in 'lr':
        m = np.einsum('ulxr,xmds->ulmdrs', a, b)
        m = m.reshape(m.shape[0], m.shape[1] * m.shape[2], m.shape[3], m.shape[4] * m.shape[5])
        return m if p is None else np.einsum('uldr,la,rb->uadb', m, p, p, optimize=True)
    m = np.einsum('uldx,vxer->uvlder', a, b)
    m = m.reshape(m.shape[0] * m.shape[1], m.shape[2], m.shape[3] * m.shape[4], m.shape[5])
    return m if p is None else np.einsum('uldr,ua,db->albr', m, p, p, optimize=True)


def tr4(a):
    return float(np.einsum('abab->', a))


class RefHOTRG:
    def __init__(self, a, chiH, chiV, dof):
        self.chi = {'l': chiH, 'r': chiH, 'u': chiV, 'd': chiV}
        self.dof = [dof]
        self.norms = [float(np.linalg.norm(a))]
        self.a = [a / self.norms[0]]
        self.full = [a]             # coarse tensors without truncation, while small
        self.errors = []
        self.dirs = []
        self.proj = []
        self.safe = True
        self.ok = 1                 # tensors that do not depend on a near tie
        self.exact = [True]

    def trials(self):
        return {d: project(self.a[-1], d, self.chi[d]) for d in 'udlr'}

    def step(self, d, trial):
        p, err, safe, dropped = trial
        self.safe = self.safe and safe
        self.ok += 1 if self.safe else 0
        self.proj.append(p)
        self.errors.append(err)
        self.dirs.append(d)
        c = coarse(self.a[-1], self.a[-1], d, p)
        n = float(np.linalg.norm(c))
        self.norms.append(n)
        self.a.append(c / n)
        self.dof.append(self.dof[-1] * 2)
        self.exact.append(self.exact[-1] and dropped < 1e-14)
        f = self.full[-1]
        if f is not None and f.size ** 2 / (f.shape[1] ** 2 if d in 'ud' else f.shape[0] ** 2) <= 600000:
            self.full.append(coarse(f, f, d))
        else:
            self.full.append(None)

    def logz(self):
        acc, out = 0.0, []
        for i in range(len(self.a)):
            acc += np.log(self.norms[i]) / self.dof[i]
            out.append(acc + np.log(tr4(self.a[i])) / self.dof[i])
        return np.array(out)


# -- square and triangle TRG ---------------------------------------------------
def svd_split(m, chi):
    u, s, vh = np.linalg.svd(m)
    k = min(chi, len(s))
    safe = k == len(s) or (s[k - 1] - s[k]) > 1e-6 * s[k - 1] or s[k - 1] < 1e-12 * s[0]
    err = 0.0 if chi >= len(s) else float(np.sum(s[k:] ** 2) / np.sum(s ** 2))
    q = np.sqrt(s[:k])
    return u[:, :k] * q, vh[:k].T * q, err, safe, float(s[k] / s[0]) if k < len(s) else 0.0


class RefSquare:
    def __init__(self, a, chi, dof):
        self.chi = chi
        self.dof = [dof]
        self.norms = [float(np.linalg.norm(a))]
        self.a = [a / self.norms[0]]
        self.errors = []
        self.safe = True
        self.ok = 1
        self.exact = [True]

    def step(self):
        a = self.a[-1]
        v, h = a.shape[0], a.shape[1]
        ua, va, ea, sa, da = svd_split(a.reshape(v * h, v * h), self.chi)                                     # (u l) (d r)
        ub, vb, eb, sb, db = svd_split(np.transpose(a, (0, 3, 2, 1)).reshape(v * h, v * h), self.chi)         # (u r) (d l)
        dr, ul, dl, ur = [x.reshape(v, h, -1) for x in (ua, va, ub, vb)]
        # ul(d,r,o) ur(d,l,o) dr(u,l,o) dl(u,r,o)
        c = np.einsum('abU,cbR,cfD,afL->ULDR', ul, ur, dr, dl, optimize=True)
        n = float(np.linalg.norm(c))
        self.norms.append(n)
        self.a.append(c / n)
        self.dof.append(self.dof[-1] * 2)
        self.errors.append((ea, eb))
        self.safe = self.safe and sa and sb
        self.ok += 1 if self.safe else 0
        self.exact.append(self.exact[-1] and max(da, db) < 1e-12)

    def logz(self):
        acc, out = 0.0, []
        for i in range(len(self.a)):
            acc += np.log(self.norms[i]) / self.dof[i]
            out.append(acc + np.log(tr4(self.a[i])) / self.dof[i])
        return np.array(out)


class RefTriangle:
    def __init__(self, alpha, chi):
        a = np.zeros((2, 2, 2))
        a[0, 0, 0] = 1.0
        a[0, 0, 1] = a[0, 1, 0] = a[1, 0, 0] = alpha
        self.chi = chi
        self.dof = [1]
        n = float(np.linalg.norm(a))
        self.an, self.bn = [n], [n]
        self.a, self.b = [a / n], [a / n]
        self.errors = []
        self.safe = True
        self.ok = 1

    def step(self):
        a, b = self.a[-1], self.b[-1]
        m = np.einsum('xac,xbd->abcd', a, b)
        m = m.reshape(a.shape[1] * b.shape[1], -1)
        u, v, e, s, _ = svd_split(m, self.chi)
        self.safe = self.safe and s
        u = u.reshape(a.shape[1], b.shape[1], -1)      # legs 2, 3, 1
        v = v.reshape(a.shape[2], b.shape[2], -1)
        for arr, x, norms in ((self.a, u, self.an), (self.b, v, self.bn)):
            # u.2-l.3, u.3-r.2, l.2-r.3
            c = np.einsum('abU,caL,bcR->ULR', x, x, x, optimize=True)
            n = float(np.linalg.norm(c))
            norms.append(n)
            arr.append(c / n)
        self.errors.append(e)
        self.ok += 1 if self.safe else 0
        self.dof.append(self.dof[-1] * 3)

    def logz(self):
        acc, out = 0.0, []
        for i in range(len(self.a)):
            d = self.dof[i] ** 2
            acc += np.log(self.an[i] * self.bn[i]) / d
            t = float(np.einsum('abc,abc->', self.a[i], self.b[i]))
            out.append(acc + (np.log(t) / d if t > 0 else np.nan))
        return out


# -- CTMRG -----------------------------------------------------------------------
class RefCTMRG:
    """corner legs (u, r); hEdge (l, u, r) below; vEdge (u, r, d) left."""

    def __init__(self, a, chi):
        self.a = a                 # u l d r
        self.chi = chi
        self.safe = True
        self.errors, self.oks, self.exacts = [], [], []      # per state
        self.exact = True
        c = np.sum(a, axis=(1, 2))             # u r
        h = np.sum(a, axis=2)                  # u l r
        v = np.sum(a, axis=1)                  # u d r
        c, h, v = self.reduce(c, np.transpose(h, (1, 0, 2)), np.transpose(v, (0, 2, 1)))
        self.states = [(c, h, v, 0.0, 0.0, 0.0)]

    def reduce(self, c, h, v):
        u, s, w = np.linalg.svd(c)
        k = min(self.chi, len(s))
        if k < len(s):
            self.safe = self.safe and ((s[k - 1] - s[k]) > 1e-6 * s[k - 1] or s[k - 1] < 1e-12 * s[0])
            self.exact = False
            self.errors.append(float(np.sum(s[k:] ** 4) / np.sum(s ** 4)))
        else:
            self.errors.append(0.0)
        self.oks.append(self.safe)
        self.exact = self.exact and c.shape[0] == c.shape[1]      # otherwise the longer side is cut
        self.exacts.append(self.exact)
        u, s, w = u[:, :k], s[:k], w[:k]
        return np.diag(s), np.einsum('aub,xa,yb->xuy', h, w, w), np.einsum('arb,ax,by->xry', v, u, u)

    def step(self):
        c, h, v, lc, lh, lv = self.states[-1]
        a = self.a
        nh = np.einsum('xpy,ulpr->xluyr', h, a)        # (l p-side, l w-side), u, (r, r)
        nh = nh.reshape(nh.shape[0] * nh.shape[1], nh.shape[2], -1)
        nv = np.einsum('xpy,updr->xurdy', v, a)        # p.u, w.u, w.r, w.d, p.d
        nv = np.transpose(nv, (0, 1, 2, 4, 3))         # p.u w.u r p.d w.d
        nv = nv.reshape(nv.shape[0] * nv.shape[1], nv.shape[2], -1)
        # c.u-pv.d, c.r-ph.l, pv.r-w.l, ph.u-w.d ; out u = (pv.u, w.u), r = (ph.r, w.r)
        nc = np.einsum('ab,xpa,bqy,upqr->xuyr', c, v, h, a, optimize=True)
        nc = nc.reshape(nc.shape[0] * nc.shape[1], -1)
        nc, nh, nv = self.reduce(nc, nh, nv)
        k = [float(np.linalg.norm(x)) for x in (nc, nh, nv)]
        self.states.append((nc / k[0], nh / k[1], nv / k[2], np.log(k[0]) + lc + lh + lv, np.log(k[1]) + lh, np.log(k[2]) + lv))

    def getz(self, L):
        if L == 1:
            return float(np.sum(self.a))
        i = L // 2 - 1
        while len(self.states) <= i:
            self.step()
        c, h, v, lc, lh, lv = self.states[i]
        if L % 2 == 0:
            # alu.u-ald.u, aru.u-ard.u, alu.r-aru.r, ald.r-ard.r
            return float(np.einsum('ab,ac,db,dc->', c, c, c, c)) * np.exp(4 * lc)
        # alu ald aru ard (u r); pu pd (l u r); pl pr (u r d); w
        top = np.einsum('ap,pux,dx->aud', c, h, c, optimize=True)      # alu.u, pu.u, aru.u  (l=pu.l with alu.r)
        mid = np.einsum('xly,uldr,prq->xupydq', v, self.a, v, optimize=True)   # pl.u w.u pr.u | pl.d w.d pr.d
        return float(np.einsum('aub,aubcdf,cdf->', top, mid, top, optimize=True)) * np.exp(4 * lc + 2 * lh + 2 * lv)


def open_lattice(a, L):
    """Exact value of the L x L lattice of a[u,l,d,r] with all boundary legs summed."""
    if L == 1:
        return float(np.sum(a))
    v = a.shape[0]
    state = np.ones((v,) * L)
    for _ in range(L):
        # horizontal leg carried as first axis
        cur = np.tensordot(np.ones(a.shape[1]), a, axes=([0], [1]))     # u d r
        # site 0: contract state's axis 0 with u
        x = np.tensordot(cur, state, axes=([0], [0]))                    # d r s1..
        x = np.moveaxis(x, 1, 0)                                         # r d s1..
        for k in range(1, L):
            # x: r, d0..d_{k-1}, s_k..s_{L-1}
            y = np.tensordot(a, x, axes=([1, 0], [0, k + 1 - 0]))        # d r d0.. (s_k removed)
            y = np.moveaxis(y, 1, 0)                                     # r d d0..
            y = np.moveaxis(y, 1, k + 1)                                 # r d0.. d_k s..
            x = y
        state = np.sum(x, axis=0)
    return float(np.sum(state))
