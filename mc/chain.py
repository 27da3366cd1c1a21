"""Sampler runs under controlled randomness, and samplers with any stored chain.

The random draws of a run come from three places: numpy's global generator (starting ball), the
sampler's own RandomState (split, stretch factors, partners, acceptance) and nothing else.  All of
them are replaced by scripted sources that record every draw, so a run is a deterministic function of
the choices, and a plain re-implementation of the ensemble stretch move fed with the same draws gives
the chain that must have been stored.
"""
import contextlib

import emcee
import numpy as np
from astropy import units as u
from astropy.table import Table

from .harness import HarnessError, Violation
from .lik import quiet

# ---------------------------------------------------------------- data and models
E_TEV = (0.5, 1.0, 2.5, 6.0, 11.0)
F0 = (7.5e-12, 2.2e-12, 3.1e-13, 6.5e-14, 1.1e-14)
FU = u.Unit("1/(cm2 s TeV)")


def data_table(n=5, ul=True, sed=False, cl=0.95, eunit=u.TeV):
    t = Table()
    e = np.array(E_TEV[:n]) * u.TeV
    f = np.array(F0[:n]) * FU
    lo, hi = 0.13 * f, 0.21 * f
    if sed:
        un = u.Unit("erg/(cm2 s)")
        f, lo, hi = [(x * e**2).to(un) for x in (f, lo, hi)]
    t["energy"] = e.to(eunit)
    t["flux"], t["flux_error_lo"], t["flux_error_hi"] = f, lo, hi
    if ul:
        flag = [0] * n
        flag[-1] = 1
        if n > 3:
            flag[-3] = 1
        t["ul"] = flag
        t.meta["keywords"] = {"cl": {"value": cl}}
    return t


def fluxes(pars, e_tev):
    """Plain numbers, 1/(cm2 s TeV): norm 1e-12, index."""
    p = np.asarray(pars, dtype=float)
    idx = p[1] if len(p) > 1 else 2.0
    out = p[0] * 1e-12 * np.asarray(e_tev) ** -idx
    if len(p) > 2:
        out = out * np.exp(-np.asarray(e_tev) / p[2])
    return out


def ref_ll(flux, data):
    """Log-likelihood of plain model numbers in 1/(cm2 s TeV) given a validated table."""
    e = data["energy"].to("TeV").value
    sed = data["flux"].unit.is_equivalent("erg/(cm2 s)")

    def num(c):
        if sed:
            return (data[c].to("TeV/(cm2 s)").value) / e**2
        return data[c].to("1/(cm2 s TeV)").value

    f, lo, hi = num("flux"), num("flux_error_lo"), num("flux_error_hi")
    ul, cl = np.array(data["ul"]), np.array(data["cl"])
    tot = 0.0
    for i in range(len(e)):
        d = flux[i] - f[i]
        if ul[i]:
            if d > 0:
                tot += np.log(1 - cl[i])
        else:
            tot -= d * d / (2 * (hi[i] if d > 0 else lo[i]) ** 2)
    return tot


# ---------------------------------------------------------------- scripted randomness
class Script:
    """Source of all random numbers of a run; `choose(n, label)` picks from the menus."""

    ZZ = (0.42, 0.0, 0.97)
    ACC = (0.55, 1e-300, 0.999999)
    NORM = (0.31, -0.77, 1.21, -1.43, 0.05, 0.64, -0.23, 2.02, -1.9, 0.93, -0.51, 1.58)

    def __init__(self, choose, out_of_range=-14.0):
        self.choose = choose
        self.normals = []
        self.trace = []
        self.oor = out_of_range
        self.foreign = 0

    # numpy's global functions
    def normal(self, loc=0.0, scale=1.0, size=None):
        n = 1 if size is None else int(np.prod(size))
        vals = []
        for _ in range(n):
            i = len(self.normals)
            base = self.NORM[i % len(self.NORM)] * (1 + 0.01 * (i // len(self.NORM)))
            c = self.choose(2, "normal%d" % i)
            v = base if c == 0 else self.oor
            self.normals.append(v)
            vals.append(v)
        v = np.array(vals) * scale + loc
        return float(v[0]) if size is None else v.reshape(size)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *size):
        return self.normal(size=size or None)


class ScriptedState:
    """Stands in for the RandomState of the sampler."""

    def __init__(self, script):
        self.s = script
        self.n = 0

    def set_state(self, *a, **k):
        pass

    def get_state(self, *a, **k):
        return ("scripted", self.n)

    def choice(self, a, size=None, p=None, **k):
        if size is not None:
            raise HarnessError("unexpected choice()")
        seq = list(a) if np.ndim(a) or isinstance(a, (list, tuple)) else list(range(a))
        return seq[0] if len(seq) == 1 else seq[self.s.choose(len(seq), "choice")]

    def shuffle(self, x):
        # alternatives: leave as is, reverse
        if self.s.choose(2, "shuffle"):
            x[:] = x[::-1].copy()
        self.s.trace.append(("split", tuple(int(i) for i in x)))

    def rand(self, *shape):
        if shape:
            n = int(np.prod(shape))
            v = [Script.ZZ[(self.s.choose(len(Script.ZZ), "zz") + i) % len(Script.ZZ)] for i in range(n)]
            self.s.trace.append(("zz", tuple(v)))
            return np.array(v).reshape(shape)
        v = Script.ACC[self.s.choose(len(Script.ACC), "acc")]
        self.s.trace.append(("acc", v))
        return v

    def randint(self, low, high=None, size=None, **k):
        lo, hi = (0, low) if high is None else (low, high)
        n = 1 if size is None else int(np.prod(size))
        v = [lo + (self.s.choose(hi - lo, "partner") + i) % (hi - lo) for i in range(n)]
        self.s.trace.append(("partner", tuple(v)))
        return v[0] if size is None else np.array(v).reshape(size)


@contextlib.contextmanager
def scripted(script):
    """Patch every source of randomness for the duration of a run."""
    R = np.random
    old = (R.normal, R.standard_normal, R.randn, R.mtrand.RandomState)
    R.normal, R.standard_normal, R.randn = script.normal, script.standard_normal, script.randn
    R.mtrand.RandomState = lambda *a, **k: ScriptedState(script)
    try:
        with quiet():
            yield
    finally:
        R.normal, R.standard_normal, R.randn, R.mtrand.RandomState = old


def stretch_chain(start, lnp, trace, nsteps, a=2.0):
    """The stored positions, log-probabilities and acceptance counts of `nsteps` ensemble moves from
    `start`, with the draws of `trace` (an iterator)."""
    x = np.array(start, dtype=float)
    lp = np.array([lnp(p) for p in x])
    nw, nd = x.shape
    chain, lps = [], []
    acc = np.zeros(nw)

    def nxt(kind):
        k, v = next(trace, (None, None))
        if k != kind:
            raise Violation("the draws of the run are not those of %d steps from its start" % nsteps)
        return v

    for _ in range(nsteps):
        split = np.array(nxt("split"))
        for half in range(2):
            S, C = np.where(split == half)[0], np.where(split != half)[0]
            z = ((a - 1.0) * np.array(nxt("zz")) + 1) ** 2 / a
            part = nxt("partner")
            prop = [x[C[j]] - (x[C[j]] - x[i]) * zz for i, j, zz in zip(S, part, z)]
            new = [lnp(q) for q in prop]
            upd = []
            for i, q, l, zz in zip(S, prop, new, z):
                r = nxt("acc")
                diff = (nd - 1) * np.log(zz) + l - lp[i]
                if diff > np.log(r):
                    upd.append((i, q, l))
                    acc[i] += 1
            for i, q, l in upd:
                x[i], lp[i] = q, l
        chain.append(x.copy())
        lps.append(lp.copy())
    return np.array(chain).reshape(nsteps, nw, nd), np.array(lps).reshape(nsteps, nw), acc, x, lp


# ---------------------------------------------------------------- samplers with any stored chain
def stored(sampler, chain, logp, blobs, accepted=None):
    """Store steps into a (real) sampler: chain[step][walker][par], logp[step][walker],
    blobs[step][walker] = list of outputs."""
    chain, logp = np.asarray(chain, dtype=float), np.asarray(logp, dtype=float)
    ns, nw, nd = chain.shape
    sampler.reset()
    nb = len(blobs[0][0])
    for s in range(ns):
        b = np.empty((nw, nb), dtype=object)
        for w in range(nw):
            for k in range(nb):
                b[w, k] = blobs[s][w][k]
        if s == 0:
            sampler.backend.grow(ns, b)
        st = emcee.State(chain[s], log_prob=logp[s], blobs=b, random_state=None)
        acc = np.ones(nw, dtype=bool) if accepted is None else np.asarray(accepted[s])
        sampler.backend.save_step(st, acc)
    return sampler
