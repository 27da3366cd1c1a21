"""C05: linear in particles and targets, non-negative, bounded in energy."""
TECHNIQUE = ("exhaustive enumeration of a bounded configuration space (particle shapes x model settings x "
             "scale factors x photon grids over 30 decades) on the real models with invariant monitors")
NOTE = ("Complete within the stated finite alphabets. Scaling is exact to 1e-9; additivity of different "
        "shapes holds to the quadrature accuracy only (2 % on fine grids, exact for equal shapes). The "
        "pion-decay lookup table may ring by 1e-6 of the peak around the kinematic edge.")

import itertools

import numpy as np
from astropy import units as u
from astropy.constants import c as c_
from astropy.constants import m_e

from mc import env  # noqa
from mc.harness import Violation
from naima import models as M
from naima import radiative as R

A = 1e36 / u.eV
MEC2 = (m_e * c_**2).to("erg")


class Step:
    """A particle distribution that is zero outside a range (any callable is a distribution)."""

    def __init__(self, lo, hi, idx=2.0, amp=1.0):
        self.lo, self.hi, self.idx, self.amp = lo, hi, idx, amp

    def __call__(self, E):
        x = E.to("TeV").value
        return self.amp * A * np.where((x >= self.lo) & (x <= self.hi), x ** -self.idx, 0.0)


class Sum:
    def __init__(self, *parts):
        self.parts = parts

    def __call__(self, E):
        return sum(p(E) for p in self.parts)


PD = {
    "pl2": lambda k=1.0: M.PowerLaw(k * A, 1 * u.TeV, 2.0),
    "pl0": lambda k=1.0: M.PowerLaw(k * A, 1 * u.TeV, 0.0),
    "pl4": lambda k=1.0: M.PowerLaw(k * A, 1 * u.TeV, 4.5),
    "ecpl": lambda k=1.0: M.ExponentialCutoffPowerLaw(k * A, 1 * u.TeV, 2.2, 3 * u.TeV, 1.3),
    "ecsharp": lambda k=1.0: M.ExponentialCutoffPowerLaw(k * A, 1 * u.TeV, 1.5, 0.01 * u.TeV, 2.0),
    "bpl": lambda k=1.0: M.BrokenPowerLaw(k * A, 1 * u.TeV, 2 * u.TeV, 1.5, 3.1),
    "ecbpl": lambda k=1.0: M.ExponentialCutoffBrokenPowerLaw(k * A, 1 * u.TeV, 0.5 * u.TeV, 1.5, 2.5, 20 * u.TeV),
    "lp": lambda k=1.0: M.LogParabola(k * A, 1 * u.TeV, 2.0, 0.3),
    "tab": lambda k=1.0: M.TableModel([0.01, 0.1, 1, 10, 30] * u.TeV, k * np.array([1e5, 3e3, 20, 0.1, 1e-3]) * A),
    "step": lambda k=1.0: Step(0.02, 3.0, amp=k),
}
SHAPES = list(PD)

IC_SEEDS = {
    "cmb": ["CMB"],
    "all": ["CMB", "FIR", "NIR"],
    "hot": [["h", 3e5 * u.K, 0]],
    "ani": [["a", 5e3 * u.K, 1 * u.erg / u.cm**3, 45 * u.deg]],
    "ani0": [["a", 5e3 * u.K, 1 * u.erg / u.cm**3, 1e-3 * u.deg]],
    "ani180": [["a", 5e3 * u.K, 1 * u.erg / u.cm**3, 180 * u.deg]],
    "mono": [["m", 1 * u.eV, 1 * u.eV / u.cm**3]],
    "monox": [["m", 10 * u.keV, 1 * u.eV / u.cm**3]],
    "arr": [["t", [0.01, 0.3, 1, 20] * u.eV, [2.0, 9, 3, 1e-3] * u.Unit("1/(eV cm3)")]],
    "arrr": [["t", [20, 1, 0.3, 0.01] * u.eV, [1e-3, 3, 9, 2.0] * u.Unit("1/(eV cm3)")]],
    "arrp": [["t", [1, 20, 0.01, 0.3] * u.eV, [3, 1e-3, 2.0, 9] * u.Unit("eV/cm3")]],
    "arr0": [["t", [0.01, 0.3, 1, 20] * u.eV, [0.0, 9, 3, 0.0] * u.Unit("1/(eV cm3)")]],
}
ER = {  # (lowest, highest) particle energy
    "dflt": {},
    "mev": dict(Eemin=0.6 * u.MeV, Eemax=30 * u.GeV),
    "tev": dict(Eemin=1 * u.GeV, Eemax=50 * u.TeV),
    "pev": dict(Eemin=1 * u.TeV, Eemax=30 * u.PeV),
    "erg": dict(Eemin=2e-3 * u.erg, Eemax=30 * u.erg),
    "kev": dict(Eemin=1 * u.keV, Eemax=1 * u.TeV),
}
PR = {
    "dflt": {},
    "tev": dict(Epmax=3 * u.TeV),
    "low": dict(Epmin=1.3 * u.GeV, Epmax=8 * u.GeV),
    "below": dict(Epmin=1.0 * u.GeV, Epmax=30 * u.TeV),
    "rest": dict(Epmin=0.1 * u.GeV, Epmax=1.21e3 * u.MeV),
    "mid": dict(Epmin=100 * u.GeV, Epmax=50 * u.TeV),
    "pev": dict(Epmax=500 * u.PeV),
}


def positive_configs(quick):
    """(name, builder(pd), photon energies per particle range key, edge or None, tolerance)"""
    out = []
    nn = (5, 40) if quick else (1, 5, 40, 100)
    for er, n in itertools.product(ER, nn):
        kw = dict(ER[er], nEed=n)
        for B in (1e-9, 1e-5, 1.0, 1e4):
            out.append(("sy", "%s:%d:%g" % (er, n, B), lambda p, kw=kw, B=B: R.Synchrotron(p, B=B * u.G, **kw)))
        for s in IC_SEEDS:
            out.append(("ic", "%s:%d:%s" % (er, n, s),
                        lambda p, kw=kw, s=s: R.InverseCompton(p, IC_SEEDS[s], **kw)))
        if er == "kev":  # no bremsstrahlung of electrons without kinetic energy
            continue
        for w in ({}, dict(weight_ee=0), dict(weight_ep=0.0), dict(n0=1e-6 / u.cm**3)):
            out.append(("br", "%s:%d:%s" % (er, n, "-".join(w) or "d"),
                        lambda p, kw=kw, w=w: R.Bremsstrahlung(p, **kw, **w)))
    for pr, n in itertools.product(PR, nn[:2]):
        kw = dict(PR[pr], nEpd=n)
        for hi in ("Pythia8", "Geant4", "SIBYLL", "QGSJET"):
            for ne in (True, False):
                for lut in (True, False):
                    if lut and (hi != "Pythia8" or not ne):
                        continue
                    out.append(("pplut" if lut else "pp", "%s:%d:%s:%d" % (pr, n, hi, ne),
                                lambda p, kw=kw, hi=hi, ne=ne, lut=lut: R.PionDecay(
                                    p, hiEmodel=hi, nuclear_enhancement=ne, useLUT=lut, **kw)))
    out.append(("k06", "d", lambda p: R.PionDecayKelner06(p)))
    out.append(("k06", "et", lambda p: R.PionDecayKelner06(p, Etrans=1 * u.GeV)))
    return out


def run(ck):
    quick = ck.quick
    cfgs = positive_configs(quick)
    ck.bounds = dict(particle_shapes=SHAPES, configurations=len(cfgs),
                     photon_decades="1e-12..1e23 eV", scale_factors=[1e-20, 0.5, 3, 1e15])

    def setup(kind, name, m):
        """photon energies, upper edge (eV) or None, absolute tolerance as a fraction of the peak"""
        npt = 60 if quick else 150
        if kind == "k06":
            return np.logspace(6, 14.5, 9 if quick else 30), None, 0.0
        if kind in ("pp", "pplut"):
            e = np.logspace(5, 19, npt // 2)
            edge = m.Epmax.to("eV").value
        else:
            e = np.logspace(-12, 23, npt)
            edge = m.Eemax.to("eV").value if kind != "sy" else None
        if edge is not None:
            fr = [1e-3, 0.03, 0.3, 0.9, 1.0, 1.0000001, 1.001, 1.1, 2, 30]
            if kind == "br":
                # electrons of a few MeV: see the case group br-edge
                if m.Eemin < 10 * u.MeV:
                    e = e[(e < 1e5) | (e > 5e6)]
            e = np.concatenate([e, edge * np.array(fr)])
        return e, edge, 0.0

    def one(ck, it):
        (kind, name, mk), sh = it

        def go():
            m = mk(PD[sh]())
            e, edge, tol = setup(kind, name, m)
            f = m.flux(e * u.eV, distance=0).to("1/(s eV)").value
            ck.step()
            ck.state((kind, name, sh))
            ck.outcome((kind, name, sh, "%.6e" % np.max(f)))
            if f.shape != e.shape:
                raise Violation("shape %s" % (f.shape,))
            if not np.all(np.isfinite(f)):
                raise Violation("not finite at %g eV" % e[~np.isfinite(f)][0])
            sed = f * e**2
            low = -tol * np.max(sed)
            if np.any(sed < low):
                raise Violation("negative: %g 1/(s eV) at %g eV" % (f[sed < low][0], e[sed < low][0]))
            if edge is not None:
                above = e > edge * (1 + 1e-6)
                # (what the interpolated table leaks beyond the limit: case group pplut-edge)
                lim = 1e-6 * np.max(sed) if kind == "pplut" else 0.0
                if np.any(np.abs(sed[above]) > lim):
                    i = np.argmax(np.abs(sed) * above)
                    raise Violation("photon of %g eV from particles of at most %g eV (flux %g)" % (e[i], edge, f[i]))
            if kind not in ("pp", "pplut", "k06") and name.startswith("dflt") and sh == "pl2" and not np.any(f > 0):
                raise Violation("no emission at all")

        ck.case("%s:%s:%s" % (kind, name, sh), go)

    def table_edge(ck, it):
        pr, n, sh = it

        def go():
            m = R.PionDecay(PD[sh](), nEpd=n, **PR[pr])
            e = m.Epmax * np.array([1.001, 1.03, 1.1, 1.5, 2.5])
            f = m.flux(e, distance=0).value
            ck.step()
            ck.state(("pplut-edge",) + it)
            if np.any(f != 0):
                raise Violation("flux %s beyond the most energetic proton (%s)" % (f, m.Epmax))

        ck.case("pplut-edge:%s:%d:%s" % it, go)

    ck.parallel(table_edge, [(pr, n, sh) for pr in PR for n in (5, 40) for sh in SHAPES])

    # cutoffs of every energy and sharpness, far below and above the particle range
    def cutoff(ck, it):
        kind, ec, beta = it

        def go():
            m = CUT[kind](M.ExponentialCutoffPowerLaw(A, 1 * u.TeV, 2.1, ec * u.GeV, beta))
            e = np.logspace(-6, 20, 79 if quick else 260)
            if kind.startswith("k06"):
                e = np.logspace(8, 15, 8)
            if kind == "br":
                e = e[(e < 1e5) | (e > 5e6)]
            f = m.flux(e * u.eV, distance=0).to("1/(s eV)").value
            ck.step()
            ck.state(("cutoff",) + it)
            if not np.all(np.isfinite(f)) or np.any(f < 0):
                i = np.argmin(np.isfinite(f) & (f >= 0))
                raise Violation("flux %g at %g eV with a cutoff at %g GeV" % (f[i], e[i], ec))

        ck.case("cutoff:%s:%g:%g" % it, go)

    CUT = {
        "sy": lambda p: R.Synchrotron(p, B=1e-4 * u.G, nEed=20),
        "ic": lambda p: R.InverseCompton(p, ["CMB", "NIR"], nEed=20),
        "ic-arr": lambda p: R.InverseCompton(p, IC_SEEDS["arr"], nEed=20),
        "ic-mono": lambda p: R.InverseCompton(p, IC_SEEDS["mono"], nEed=20),
        "br": lambda p: R.Bremsstrahlung(p, nEed=20, Eemin=10 * u.MeV),
        "pp": lambda p: R.PionDecay(p, nEpd=20),
        "pp-coarse": lambda p: R.PionDecay(p, nEpd=5),
        "pp-direct": lambda p: R.PionDecay(p, nEpd=20, useLUT=False),
        "pp-nonuc": lambda p: R.PionDecay(p, nEpd=20, useLUT=False, nuclear_enhancement=False, hiEmodel="QGSJET"),
    }
    ck.parallel(cutoff, [(k, float(ec), b) for k in CUT for ec in np.logspace(-2, 7, 10 if quick else 37)
                         for b in (0.5, 1.0, 2.0)])

    def brem_edge(ck, it):
        er, w, sh = it

        def go():
            m = R.Bremsstrahlung(PD[sh](), nEed=40, **ER[er], **w)
            edge = m.Eemax.to("eV").value
            e = edge - np.array([0.4, 0.3, 0.2, 0.1, 0.03, 1e-3]) * 1e6
            if er == "mev":
                e = np.append(e, np.linspace(0.4, 4, 37) * 1e6)
            f = m.flux(e * u.eV, distance=0).value
            ck.step(len(e))
            ck.state(("edge", er, sorted(w), sh))
            if not np.all(np.isfinite(f)) or np.any(f < 0):
                raise Violation("flux %s at %s eV" % (f, e))

        ck.case("br-edge:%s:%s:%s" % (er, "-".join(w) or "d", sh), go)

    # the slow Kelner model is sampled over fewer shapes in the quick tier
    todo = []
    for c in cfgs:
        shapes = SHAPES if not quick else (SHAPES if c[0] in ("ic", "sy", "br") else SHAPES[::3])
        if c[0] == "k06":
            # (power laws without break or edge: the adaptive quadrature of this model is
            # not made for discontinuous distributions)
            shapes = ["pl2", "ecpl"] if quick else ["pl2", "pl4", "ecpl", "lp", "ecbpl"]
        todo += [(c, s) for s in shapes]
    ck.sample((todo[0][0][:2], todo[0][1]))
    ck.parallel(one, todo)
    ck.parallel(brem_edge, [(er, w, sh) for er in ("mev", "erg", "tev") for w in ({}, dict(weight_ee=0), dict(weight_ep=0))
                            for sh in ("pl2", "pl0", "pl4")])

    # ---- photon energies equal to a particle energy of the grid, and their neighbours ---------------------
    def grid(ck, it):
        (kind, name, mk), sh, unit = it

        def go():
            m = mk(PD[sh]())
            un = u.Unit(unit)
            if kind in ("pp", "pplut"):
                n, lo, hi, rest = m.nEpd, m.Epmin, m.Epmax, 1 * u.GeV
            else:
                n, lo, hi, rest = m.nEed, m.Eemin, m.Eemax, MEC2
            lo, hi = [float((x / rest).decompose().value) for x in (lo, hi)]
            g = set(np.logspace(np.log10(lo), np.log10(hi), max(10, int(n * np.log10(hi / lo)))).tolist())
            # the grid as the model has it, if it keeps one (it may differ from the above by rounding)
            for a in ("_gam", "_Ep"):
                v = getattr(m, a, None)
                if isinstance(v, np.ndarray):
                    g |= set(v.tolist())
            g = np.array(sorted(g | {lo, hi}))
            x = g * rest.to(un).value
            up, dn = np.nextafter(x, np.inf), np.nextafter(x, 0)
            e = np.unique(np.concatenate([x, up, dn, np.nextafter(up, np.inf), np.nextafter(dn, 0), x * (1 + 1e-11)]))
            if kind == "br":
                ev = e * un.to("eV")
                e = e[(ev < hi * rest.to("eV").value - 1e6) & ((m.Eemin >= 10 * u.MeV) | (ev > 5e6))]
            if not len(e):
                return
            f = m.flux(e * un, distance=0).to("1/(s eV)").value
            ck.step(len(e))
            ck.state(("grid", kind, name, sh, unit))
            if not np.all(np.isfinite(f)):
                raise Violation("not finite at %r %s, a particle energy of the grid" % (float(e[~np.isfinite(f)][0]), unit))
            sed = f * e**2
            if kind == "br":
                # up to 0.42 MeV below an electron energy: case group br-node
                eps = (e * un / MEC2).decompose().value
                gap = g[None, :] - eps[:, None]
                ok = ~np.any((gap < 0.9) & (gap > -1e-13 * eps[:, None]), axis=1)
                f, sed, e = f[ok], sed[ok], e[ok]
            if np.any(sed < 0):
                raise Violation("negative at %r %s, a particle energy of the grid" % (float(e[f < 0][0]), unit))
            # no jump between floating point neighbours
            if kind != "pplut" and sh == "pl2":
                for a, b, ea, eb in zip(f, f[1:], e, e[1:]):
                    if eb - ea < 4 * np.spacing(ea) and max(a, b) > 0 and abs(a - b) > 0.5 * max(a, b) and ea < 0.5 * e[-1]:
                        raise Violation("%g at %r and %g at %r %s" % (a, float(ea), b, float(eb), unit))

        ck.case("grid:%s:%s:%s:%s" % (kind, name, sh, unit), go)

    def brem_node(ck, it):
        er, w, ul = it

        def go():
            m = R.Bremsstrahlung(PD["pl2"](), nEed=5, **ER[er], **w)
            lo = m.Eemin.to("MeV").value
            e = np.nextafter(lo, 0) if ul else lo - np.array([0.4, 0.2, 0.1, 0.01, 1e-3, 1e-5])
            f = m.flux(np.atleast_1d(e) * u.MeV, distance=0).value
            ck.step(len(f))
            ck.state(("node", er, sorted(w), ul))
            if not np.all(np.isfinite(f)) or np.any(f < 0):
                raise Violation("flux %s at %s MeV, just below the lowest electron energy" % (f, e))

        ck.case("br-node:%s:%s:%s" % (er, "-".join(w) or "d", "ulp" if ul else "near"), go)

    ck.parallel(brem_node, [(er, w, ul) for er in ("dflt", "tev") for w in ({}, dict(weight_ee=0), dict(weight_ep=0))
                            for ul in (True, False)])
    ck.parallel(grid, [(x, sh, un) for x in cfgs if x[0] in ("ic", "br", "pp", "sy") and ":5:" in x[1]
                       for sh in (("pl2",) if quick or x[0] == "pp" else ("pl2", "ecpl", "step"))
                       for un in (("eV", "erg") if quick else ("eV", "erg", "TeV", "J"))])

    def rest(ck, it):
        kind, c, er = it

        def go():
            mk = [x[2] for x in cfgs if x[0] == kind and x[1] == c][0]
            m = mk(PD["pl2"]())
            e = np.array([1e-6, 1e-4, 0.125, 0.25, 0.5, 0.75, 1, 2, 4]) * (m_e * c_**2).to(er)
            f = m.flux(e, distance=0).value
            ck.step()
            ck.state(("rest",) + it)
            if not np.all(np.isfinite(f)) or np.any(f < 0):
                raise Violation("flux %s at multiples of the electron rest energy" % f)

        ck.case("rest:%s:%s:%s" % it, go)

    ck.parallel(rest, [(x[0], x[1], un) for x in cfgs if x[0] in ("br", "sy", "ic") and not x[1].startswith("mev")
                       for un in ("erg", "MeV", "J")])

    # ---- scaling --------------------------------------------------------------------------
    KS = (1e-20, 0.5, 3.0, 1e15)
    E = np.array([1e-3, 1.0, 1e3, 1e6, 1e8, 1e10, 1e12])
    ik = dict(nEed=12, Eemin=10 * u.MeV, Eemax=100 * u.TeV)

    def seedk(spec, k):
        out = []
        for s in spec:
            out.append([s[0], s[1], s[2] * k] + list(s[3:]))
        return out

    SC = {
        "sy-amp": lambda k, p: R.Synchrotron(PD[p](k), B=1e-5 * u.G, **ik),
        "br-amp": lambda k, p: R.Bremsstrahlung(PD[p](k), **ik),
        "br-n0": lambda k, p: R.Bremsstrahlung(PD[p](), n0=k / u.cm**3, **ik),
        "br-wee": lambda k, p: R.Bremsstrahlung(PD[p](), weight_ee=k, weight_ep=0, **ik),
        "br-wep": lambda k, p: R.Bremsstrahlung(PD[p](), weight_ep=k, weight_ee=0, **ik),
        "pp-amp": lambda k, p: R.PionDecay(PD[p](k), nEpd=10),
        "pp-nh": lambda k, p: R.PionDecay(PD[p](), nh=k / u.cm**3, nEpd=10),
        "ppd-amp": lambda k, p: R.PionDecay(PD[p](k), nEpd=10, useLUT=False, hiEmodel="Geant4"),
        "ppd-nh": lambda k, p: R.PionDecay(PD[p](), nh=k / u.cm**3, nEpd=10, useLUT=False, hiEmodel="QGSJET"),
        "k06-amp": lambda k, p: R.PionDecayKelner06(PD[p](k)),
        "k06-nh": lambda k, p: R.PionDecayKelner06(PD[p](), nh=k / u.cm**3),
    }
    for s in IC_SEEDS:
        SC["ic-amp-" + s] = lambda k, p, s=s: R.InverseCompton(PD[p](k), IC_SEEDS[s], **ik)
    base_seeds = {
        "th": [["h", 3e3 * u.K, 1 * u.eV / u.cm**3]],
        "thJ": [["h", 3e3 * u.K, 1e-13 * u.J / u.m**3]],
        "ani": [["h", 3e3 * u.K, 1 * u.eV / u.cm**3, 45 * u.deg]],
        "mono": IC_SEEDS["mono"],
        "arr": IC_SEEDS["arr"],
        "arru": [["t", [0.01, 0.3, 1, 20] * u.eV, [2.0, 9, 3, 1e-3] * u.Unit("eV/cm3")]],
    }
    for s in base_seeds:
        SC["ic-u-" + s] = lambda k, p, s=s: R.InverseCompton(PD[p](), seedk(base_seeds[s], k), **ik)

    def scal(ck, it):
        name, p, k = it

        def go():
            mk = SC[name]
            e = E if not name.startswith("k06") else np.array([1e9, 1e10, 1e12])
            if name.startswith("pp"):
                e = E[3:]
            f1 = mk(1.0, p).flux(e * u.eV, distance=0).value
            m = mk(k, p)
            fk = m.flux(e * u.eV, distance=0).value
            ck.step(2)
            ck.state((name, p, k))
            ck.outcome((name, p, k, "%.6e" % fk.max()))
            tol = 1e-9 if not name.startswith("k06") else 1e-6
            if not np.allclose(fk, k * f1, rtol=tol, atol=0):
                i = np.argmax(np.abs(fk - k * f1) / np.where(f1 > 0, k * f1, 1))
                raise Violation("factor %g changes the emission at %g eV by %g" % (k, e[i], fk[i] / f1[i]))
            if not np.any(f1 > 0):
                raise Violation("no emission")
            # zero density: no emission
        ck.case("scale:%s:%s:%g" % it, go)

    def zero(ck, name):
        def go():
            f = SC[name](0.0, "pl2").flux(np.array([1e9, 1e11]) * u.eV, distance=0).value
            ck.step()
            if np.any(f != 0):
                raise Violation("emission %s at zero target density" % f)
        ck.case("zero:" + name, go)

    items = [(n, p, k) for n in SC for p in (("pl2", "bpl") if n.startswith("k06") else
                                             ("pl2", "ecpl", "bpl", "lp", "tab", "step")) for k in KS
             if not (n.startswith("k06") and p == "tab")]
    if quick:
        items = [i for i in items if not i[0].startswith("k06") or (i[1] == "pl2" and i[2] in (3.0, 1e-20))]
    ck.parallel(scal, items)
    ck.parallel(zero, ["br-n0", "pp-nh", "ppd-nh", "k06-nh", "ic-amp-cmb", "sy-amp"])

    # ---- additivity -----------------------------------------------------------------------
    fine = dict(nEed=100)
    MODELS = {
        "sy": lambda p: R.Synchrotron(p, B=1e-5 * u.G, Eemin=1 * u.GeV, Eemax=300 * u.TeV, **fine),
        "ic": lambda p: R.InverseCompton(p, ["CMB", "FIR"], Eemin=1 * u.GeV, Eemax=300 * u.TeV, **fine),
        "ica": lambda p: R.InverseCompton(p, IC_SEEDS["ani"], Eemin=1 * u.GeV, Eemax=300 * u.TeV, **fine),
        "icm": lambda p: R.InverseCompton(p, IC_SEEDS["mono"], Eemin=1 * u.GeV, Eemax=300 * u.TeV, **fine),
        "ict": lambda p: R.InverseCompton(p, IC_SEEDS["arr"], Eemin=1 * u.GeV, Eemax=300 * u.TeV, **fine),
        "br": lambda p: R.Bremsstrahlung(p, **fine),
        "pp": lambda p: R.PionDecay(p, nEpd=100),
        "ppd": lambda p: R.PionDecay(p, nEpd=50, useLUT=False),
        "k06": lambda p: R.PionDecayKelner06(p),
    }
    smooth = ["pl2", "pl4", "ecpl", "bpl", "ecbpl", "lp"]

    def addi(ck, it):
        m, a, b = it

        def go():
            e = dict(sy=[1e-2, 1.0, 100.0], br=[1e8, 1e10, 1e12]).get(m, [3e9, 3e10, 1e12] if m != "k06" else [2e11, 1e12, 1e13]) * u.eV
            mk = MODELS[m]
            fa, fb = (mk(PD[x]()).flux(e, distance=0).value for x in (a, b))
            fs = mk(Sum(PD[a](), PD[b]())).flux(e, distance=0).value
            ck.step(3)
            ck.state((m, a, b))
            tol = 1e-6 if a == b else 0.02
            if m == "k06" and a != b:
                tol = 0.02
            if not np.allclose(fs, fa + fb, rtol=tol, atol=0):
                raise Violation("emission of the sum %s, sum of the emissions %s" % (fs, fa + fb))
        ck.case("add:%s:%s:%s" % it, go)

    pairs = list(itertools.combinations_with_replacement(smooth, 2))
    ck.parallel(addi, [(m, a, b) for m in MODELS for a, b in (pairs if m != "k06" else [("pl2", "pl2"), ("pl2", "ecpl")])])

    # disjoint parts of one population: exact up to the cell that is cut
    def parts(ck, it):
        m, cut = it

        def go():
            e = dict(sy=[1e-2, 1.0, 100.0], br=[1e8, 1e10, 1e12]).get(m, [3e9, 3e10, 1e12]) * u.eV
            mk = MODELS[m]
            f = [mk(Step(lo, hi)).flux(e, distance=0).value for lo, hi in ((0, 1e9), (0, cut), (cut, 1e9))]
            ck.step(3)
            ck.state((m, "cut", cut))
            if not np.allclose(f[0], f[1] + f[2], rtol=0.06, atol=0):
                raise Violation("whole %s, parts %s" % (f[0], f[1] + f[2]))
        ck.case("parts:%s:%g" % it, go)

    ck.parallel(parts, [(m, c) for m in MODELS if m not in ("k06",) for c in (0.01, 0.1, 1.0, 20.0)])
    ck.assumptions = ["grids of 5 to 100 points per decade", "bremsstrahlung closer than 0.4 MeV to the end "
                      "point is a separate (known-finding) case group"]
