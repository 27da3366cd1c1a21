"""C06: particle energy content is conserved by normalisation."""
TECHNIQUE = ("exhaustive enumeration of normalisation histories (all sequences of set_W operations up to a "
             "depth x distributions x models x limit forms) on the real code with an invariant monitor after each step")
NOTE = ("Complete within the alphabets. Oracle: analytic or adaptive-quadrature energy content; exact for "
        "power laws, 0.3 % (grid accuracy at 100 points per decade) otherwise.")

import itertools
import logging

import numpy as np
from astropy import units as u
from astropy.constants import c, m_e, m_p

from mc import env  # noqa
from mc.common import observe, same, Raised
from mc.harness import Violation
from naima import models as M
from naima import radiative as R

MEC2 = (m_e * c**2).to("erg")


class Custom:
    """A user written distribution whose normalisation has another name."""

    def __init__(self, norm, index=2.0):
        self.norm = norm
        self.index = index

    def __call__(self, E):
        return self.norm * (E / (1 * u.TeV)).decompose().value ** -self.index


def amp0():
    return 3e35 / u.eV


PD = {
    "pl2": lambda a: M.PowerLaw(a, 1 * u.TeV, 2.0),
    "pl3": lambda a: M.PowerLaw(a, 2 * u.TeV, 3.1),
    "pl1": lambda a: M.PowerLaw(a, 1 * u.TeV, 1.0),
    "ecpl": lambda a: M.ExponentialCutoffPowerLaw(a, 1 * u.TeV, 2.2, 30 * u.TeV),
    "bpl": lambda a: M.BrokenPowerLaw(a, 1 * u.TeV, 3 * u.TeV, 1.5, 3.2),
    "ecbpl": lambda a: M.ExponentialCutoffBrokenPowerLaw(a, 1 * u.TeV, 0.5 * u.TeV, 1.5, 2.6, 40 * u.TeV),
    "lp": lambda a: M.LogParabola(a, 1 * u.TeV, 2.1, 0.2),
    "cust": lambda a: Custom(a, 2.4),
    "tab": lambda a: M.TableModel([1e-4, 1e-2, 1, 1e2, 1e4] * u.TeV, [1e8, 1e4, 1, 1e-4, 1e-8] * (1e30 / u.eV)),
}
RAD = {
    "sy": lambda p: R.Synchrotron(p, B=1e-5 * u.G, nEed=100),
    "sy2": lambda p: R.Synchrotron(p, B=1e-5 * u.G, Eemin=5 * u.GeV, Eemax=20 * u.TeV, nEed=30),
    "ic": lambda p: R.InverseCompton(p, ["CMB"], Eemin=1 * u.GeV, Eemax=1e15 * u.eV, nEed=40),
    "br": lambda p: R.Bremsstrahlung(p, nEed=40),
    "pp": lambda p: R.PionDecay(p, nEpd=20),
    "pp2": lambda p: R.PionDecay(p, Epmin=2 * u.GeV, Epmax=3e-4 * u.PeV * 1e3, nEpd=20, useLUT=False),
}
LIMITS = {
    "none": {},
    "min": dict(lo=10 * u.GeV),
    "max": dict(hi=5e3 * u.GeV),
    "both": dict(lo=2e10 * u.eV, hi=80 * u.TeV),
    "erg": dict(lo=0.1 * u.erg, hi=50 * u.erg),
    # beyond the range of the radiating particles
    "over": dict(hi=1e18 * u.eV),
    "under": dict(lo=0.3 * u.GeV),
    "above": dict(lo=6 * u.PeV, hi=40 * u.PeV),
    "below": dict(lo=20 * u.MeV, hi=300 * u.MeV),
}
FAR = ("over", "under", "above", "below")
TARGET = {"e47": 1e47 * u.erg, "J": 3e42 * u.J, "eV": 1e60 * u.eV}


def is_p(r):
    return r.startswith("pp")


def limkw(r, lim):
    k = {}
    for a, b in LIMITS[lim].items():
        k[("Ep" if is_p(r) else "Ee") + dict(lo="min", hi="max")[a]] = b
    return k


def amp_name(p):
    return "norm" if p == "cust" else "amplitude"


def rng(m, r, lim):
    lo, hi = (m.Epmin, m.Epmax) if is_p(r) else (m.Eemin, m.Eemax)
    return LIMITS[lim].get("lo", lo), LIMITS[lim].get("hi", hi)


def oracle_W(pd, lo, hi, nodes=()):
    """\\int E n(E) dE by Gauss-Legendre in log E on 2000 cells (breaks at cell borders to 1e-3)"""
    a, b = np.log(lo.to("TeV").value), np.log(hi.to("TeV").value)
    edges = np.linspace(a, b, 601)
    x, w = np.polynomial.legendre.leggauss(6)
    mid, half = 0.5 * (edges[1:] + edges[:-1]), 0.5 * np.diff(edges)
    t = (mid[:, None] + half[:, None] * x).ravel()
    ww = (half[:, None] * w).ravel()
    E = np.exp(t)
    n = pd(E * u.TeV).to("1/TeV").value
    return (np.sum(ww * E * E * n) * u.TeV).to("erg")


def compute(m, r, lim, style="kw"):
    f = m.compute_Wp if is_p(r) else m.compute_We
    k = limkw(r, lim)
    return f(**k)


def setW(m, r, W, lim, p):
    f = m.set_Wp if is_p(r) else m.set_We
    k = limkw(r, lim)
    if amp_name(p) != "amplitude":
        k["amplitude_name"] = amp_name(p)
    return f(W, **k)


def run(ck):
    logging.getLogger("naima.radiative").setLevel(logging.CRITICAL)
    ops = list(itertools.product(LIMITS, TARGET))
    depth = 2 if ck.quick else 3
    ck.bounds = dict(models=list(RAD), distributions=list(PD), operations=len(ops), depth=depth)
    E = np.array([0.02, 0.3, 1, 4, 30]) * u.TeV

    def content(ck, it):
        r, p, lim = it

        def go():
            a = amp0()
            pd = PD[p](a)
            m = RAD[r](pd)
            lo, hi = rng(m, r, lim)
            W = compute(m, r, lim)
            ck.step()
            ck.state((r, p, lim))
            ck.outcome((r, p, lim, "%.8e" % W.to("erg").value))
            want = oracle_W(PD[p](amp0()), lo, hi)
            tol = 1e-9 if p in ("pl2", "pl3", "pl1", "cust") else 3e-3
            if p == "pl2":
                # the index of E n(E) is exactly -1: analytic
                want = (amp0() * (1 * u.TeV) ** 2 * np.log((hi / lo).decompose().value)).to("erg")
            n = (m.nEpd if is_p(r) else m.nEed)
            if n < 50 and tol > 1e-9:
                tol = 3e-2
            if lim == "above" and p.startswith("ec"):
                tol = 0.1  # two hundred cutoff energies: a few cells carry everything
            d = same(W.to("erg"), want, tol)
            if d:
                raise Violation("energy content between %s and %s: %s" % (lo, hi, d))
            if lim == "none":
                d = same((m.Wp if is_p(r) else m.We).to("erg"), W.to("erg"), 1e-12)
                if d:
                    raise Violation("property and method differ: " + d)
            # adjacent ranges
            for fr in (0.2, 0.5, 0.9):
                mid = lo * (hi / lo).decompose() ** fr
                names = ("Epmin", "Epmax") if is_p(r) else ("Eemin", "Eemax")
                f = m.compute_Wp if is_p(r) else m.compute_We
                w1 = f(**{names[0]: lo, names[1]: mid})
                w2 = f(**{names[0]: mid, names[1]: hi})
                w3 = f(lo, mid)
                ck.step(3)
                d = same((w1 + w2).to("erg"), W.to("erg"), tol) or same(w3, w1, 1e-12)
                if d:
                    raise Violation("content of adjacent ranges split at %s: %s" % (mid, d))
            d = same(compute(m, r, lim), W, 1e-12)
            if d:
                raise Violation("second computation: " + d)
            if not np.all(pd(E) == PD[p](amp0())(E)):
                raise Violation("computing the content changed the distribution")

        ck.case("content:%s:%s:%s" % it, go)

    ck.parallel(content, [x for x in itertools.product(RAD, PD, LIMITS) if x[1] != "tab" or x[2] not in FAR])

    def hist(ck, it):
        r, p, word = it

        def go():
            a = amp0()
            pd = PD[p](a)
            bystander = PD[p](a) if p != "tab" else PD[p](a)
            m = RAD[r](pd)
            other = RAD[r](bystander)
            shape0 = PD[p](amp0())(E)
            by0 = bystander(E).copy()
            pars0 = {k: v for k, v in vars(pd).items() if not k.startswith("_") and k != amp_name(p)}
            eph = np.array([1e9, 3e10]) * u.eV if r != "sy" and r != "sy2" else np.array([0.1, 1e3]) * u.eV
            held = [getattr(pd, amp_name(p))]
            held_v = [u.Quantity(h).copy() for h in held]
            if ck_flux(r):
                f0 = m.flux(eph, distance=0).copy()
                o0 = other.flux(eph, distance=0).copy()
                ck.step(2)
            for i, (lim, tg) in enumerate(word):
                W = TARGET[tg]
                W0 = W.copy()
                ret = setW(m, r, W, lim, p)
                ck.step()
                if W != W0 or W.unit != W0.unit:
                    raise Violation("the energy passed was modified")
                got = compute(m, r, lim)
                ck.step()
                d = same(got.to("erg"), W.to("erg"), 1e-9)
                if d:
                    raise Violation("step %d, content after normalisation to %s (%s): %s" % (i, W, lim, d))
                now = pd(E)
                ratio = (now / shape0).decompose().value
                if not np.allclose(ratio, ratio[0], rtol=1e-9, atol=0) or not ratio[0] > 0:
                    raise Violation("step %d changed the shape: %s" % (i, ratio))
                for h, v in zip(held, held_v):
                    if not np.all(u.Quantity(h) == v):
                        raise Violation("step %d modified a value held by the user: %s became %s" % (i, v, h))
                if a != amp0():
                    raise Violation("step %d modified the amplitude the user holds" % i)
                if not np.all(bystander(E) == by0):
                    raise Violation("step %d changed another distribution" % i)
                held.append(getattr(pd, amp_name(p)))
                held_v.append(u.Quantity(held[-1]).copy())
                pars = {k: v for k, v in vars(pd).items() if not k.startswith("_") and k != amp_name(p)}
                if set(pars) != set(pars0) or any(np.any(pars[k] != pars0[k]) for k in pars0):
                    raise Violation("step %d changed another parameter" % i)
                if ck_flux(r):
                    f = m.flux(eph, distance=0)
                    ck.step()
                    d = same(f, f0 * ratio[0], 1e-9)
                    if d:
                        raise Violation("step %d, spectrum: %s" % (i, d))
            if ck_flux(r):
                d = same(other.flux(eph, distance=0), o0, 0)
                if d:
                    raise Violation("spectrum of another model: " + d)
            ck.state(it)
            ck.outcome((r, p, word))

        ck.case("hist:%s:%s:%s" % (r, p, "/".join("%s-%s" % w for w in word)), go)

    def ck_flux(r):
        return r in ("sy", "ic", "pp", "br")

    words = [w for d in range(1, depth + 1) for w in itertools.product(ops, repeat=d)
             if d < 3 or w[0][1] == "e47"]
    items = []
    for r, p in itertools.product(RAD, PD):
        main = (r in ("sy2", "pp2")) or p in ("pl2", "cust")
        for w in words:
            if any(x[0] in FAR for x in w):
                # (a table model has no particles outside of its range)
                if p == "tab" or len(w) > 2 or (len(w) == 2 and not (main and w[0][1] == "e47" and w[1] == ("both", "J"))):
                    continue
            if len(w) == 1 or (len(w) == 2 and (main or w[0][1] == "e47" and w[1][1] == "J")) or (
                    len(w) == 3 and r in ("sy2", "pp2") and p in ("pl3", "ecpl", "cust", "tab")):
                items.append((r, p, w))
    ck.sample((items[0], items[-1]))
    ck.parallel(hist, items)

    # a distribution without normalisation attribute: reported, nothing changes
    def noamp(r):
        pd = Custom(amp0(), 2.4)
        m = RAD[r](pd)
        before = pd(E).copy()
        observe(m.set_Wp if is_p(r) else m.set_We, 1e47 * u.erg)
        ck.step()
        ck.state(("noamp", r))
        if not np.all(pd(E) == before) or hasattr(pd, "amplitude"):
            raise Violation("distribution without amplitude was changed")

    for r in RAD:
        ck.case("noamp:" + r, noamp, r)

    # total content of the oldest proton model: above 1.22 GeV
    def k06(p):
        pd = PD[p](amp0())
        got = R.PionDecayKelner06(pd).Wp
        ck.step()
        ck.state(("k06", p))
        want = oracle_W(PD[p](amp0()), 1.22 * u.GeV, 1e9 * u.TeV)
        d = same(got.to("erg"), want, 5e-3)
        if d:
            raise Violation("proton energy: " + d)

    for p in ("pl3", "ecpl", "bpl", "ecbpl"):
        ck.case("k06:" + p, k06, p)
    ck.assumptions = ["100, 40, 30 or 20 grid points per decade"]
