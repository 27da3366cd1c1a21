"""C08: synchrotron and inverse Compton follow the published formulas."""
TECHNIQUE = ("exhaustive enumeration of the settings product (particles x ranges x grids x field strength / seed "
             "kind, temperature, angle, density, table x units) on the real models against an independent reference")
NOTE = ("Complete within the alphabets. Two oracles: the published formula on the documented electron grid "
        "(1e-5), and an independent Gauss quadrature / an exact Planck convolution of the Jones kernel "
        "(2 %, on 100 points per decade), so that formula constants are cross-checked against physics.")

import itertools

import numpy as np
from astropy import units as u

from mc import env  # noqa
from mc import ref_em as F
from mc.harness import Violation
from naima import models as M
from naima import radiative as R

A = 1e36 / u.eV
PD = {
    "pl2": lambda: M.PowerLaw(A, 1 * u.TeV, 2.0),
    "ecpl": lambda: M.ExponentialCutoffPowerLaw(A, 1 * u.TeV, 2.2, 10 * u.TeV, 1.5),
    "bpl": lambda: M.BrokenPowerLaw(A, 1 * u.TeV, 0.5 * u.TeV, 1.2, 3.3),
    "lp": lambda: M.LogParabola(A, 1 * u.TeV, 2.0, 0.3),
}
RANGE = {
    "dflt": {},
    "tev": dict(Eemin=1 * u.GeV, Eemax=50 * u.TeV),
    "low": dict(Eemin=1 * u.MeV, Eemax=0.3 * u.erg),
    "hi": dict(Eemin=10 * u.TeV, Eemax=20 * u.PeV),
}


def rel(g, w):
    return np.abs(g - w) / np.where(w != 0, np.abs(w), 1)


def cmp(ck, what, got, want, tol, floor=0.0):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s" % (what, got.shape))
    ok = (np.abs(got - want) <= tol * np.abs(want) + floor)
    if not np.all(ok):
        i = np.argmin(ok)
        raise Violation("%s: %r instead of %r at energy number %d" % (what, got[i], want[i], i))


def nelec(p, gam):
    return PD[p]()(gam * F.MEC2 * u.erg).to("1/erg").value * F.MEC2


def lims(r):
    d = dict(Eemin=1 * u.GeV, Eemax=1e9 * F.MEC2 * u.erg)
    d.update(RANGE[r])
    return d["Eemin"].to("erg").value, d["Eemax"].to("erg").value


# seed kind -> (naima description, reference function (eg, gam) -> photons/(s mec2))
def seeds():
    out = {}
    for T in (2.7, 30.0, 3e3, 1e5):
        for dens in (0, 0.5 * u.eV / u.cm**3, 3e-12 * u.erg / u.cm**3):
            for tu in ("K", "mK"):
                if tu == "mK" and dens != 0:
                    continue
                t = (T * u.K).to(tu)
                f = 1.0 if dens == 0 else (dens.to("erg/cm3").value / (F.A_R * T**4))
                out["th:%g:%s:%s" % (T, str(dens).replace(" ", ""), tu)] = (
                    [["x", t, dens]], lambda eg, g, T=T, f=f: f * F.ic_thermal(eg, g, T))
        for th in (0.3 * u.deg, 30 * u.deg, 90 * u.deg, np.pi * u.rad, 2.0 * u.rad, 200 * u.deg,
                   2000 * u.arcmin, 250000 * u.arcsec, 5 * u.hourangle, 900 * u.mrad, 0.3 * u.cycle):
            out["ani:%g:%s" % (T, str(th).replace(" ", ""))] = (
                [["x", T * u.K, 0, th]],
                lambda eg, g, T=T, th=th: F.ic_thermal(eg, g, T, th.to("rad").value))
        out["anid:%g" % T] = ([["x", T * u.K, 2 * u.eV / u.cm**3, 60 * u.deg]], lambda eg, g, T=T: (
            2 * F.EV / (F.A_R * T**4)) * F.ic_thermal(eg, g, T, np.pi / 3))
    for e0, un, d in itertools.product((1e-3, 1.0, 50.0, 1e4), ("eV", "erg"), (1 * u.eV / u.cm**3, 2e-13 * u.J / u.m**3)):
        x = (e0 * u.eV).to(un)
        n = d.to("erg/cm3").value / (e0 * F.EV)
        out["mono:%g:%s:%s" % (e0, un, d.unit.to_string().replace(" ", ""))] = (
            [["x", x, d]], lambda eg, g, e0=e0, n=n: n * F.ic_mono(eg, g, e0 * F.EV / F.MEC2))
    tabs = {
        "t2": ([0.5, 2.0], [3.0, 1.0]),
        "t4": ([0.01, 0.3, 1, 20], [2.0, 9, 3, 1e-3]),
        "tz": ([0.01, 0.3, 1, 20, 30], [0.0, 9, 3, 1e-3, 0.0]),
        "t6": ([1e-3, 1e-2, 0.1, 1, 1e3, 1e4], [5.0, 5, 4, 3, 1e-4, 1e-8]),
    }
    for t, (ee, nn) in tabs.items():
        ee, nn = np.array(ee), np.array(nn)
        for un in ("eV", "keV"):
            for form in ("num", "erg", "energy"):
                q = nn * u.Unit("1/(eV cm3)")
                if form == "erg":
                    q = q.to("1/(erg m3)")
                if form == "energy":
                    q = (nn * ee**2) * u.Unit("eV/cm3")

                def ref(eg, g, ee=ee, nn=nn):
                    # \int n(e) sigma(e) de
                    x = ee * F.EV / F.MEC2
                    n = nn / F.EV * F.MEC2
                    k = np.stack([F.ic_mono(eg, g, xi) * ni for xi, ni in zip(x, n)], axis=-1)
                    return F.loglog(k, x)

                out["tab:%s:%s:%s" % (t, un, form)] = ([["x", (ee * u.eV).to(un), q]], ref)
    return out


def run(ck):
    BS = [1e-9, 3.24e-6, 1e-3, 10.0, 1e6]
    NN = [1, 10, 33, 100]
    if not ck.quick:
        BS += [1e-12, 1e-7, 1e-5, 0.1, 1e9]
        NN += [2, 5, 20, 57, 300]
    SD = seeds()
    ck.bounds = dict(distributions=list(PD), ranges=list(RANGE), B=BS, nEed=NN, seeds=len(SD))

    def sync(ck, it):
        p, r, n, B, un = it

        def go():
            m = R.Synchrotron(PD[p](), B=(B * u.G).to(un), nEed=n, **RANGE[r])
            lo, hi = lims(r)
            gam = F.grid(lo, hi, n)
            # from the lowest to far above the highest critical energy
            Ec = 1.5 * F.E_ESU * F.HBAR * B * gam[[0, -1]] ** 2 / (F.ME * F.C_CM)
            E = np.concatenate([np.logspace(np.log10(Ec[0]) - 4, np.log10(Ec[1]) + 1, 14), Ec])
            got = m.flux((E * u.erg).to("eV"), distance=0).to("1/(s erg)").value
            ck.step()
            ck.state(it)
            ne = nelec(p, gam)
            want = F.loglog(ne * F.sync_kernel(E[:, None], gam, B), gam)
            ck.outcome("%.7e" % got[3])
            cmp(ck, "synchrotron", got, want, 1e-5, 1e-7 * want.max() * 1e-300)
            if n == 100:
                g2, w2 = F.gauss_log(gam[0], gam[-1])
                w = np.sum(w2 * nelec(p, g2) * F.sync_kernel(E[:, None], g2, B), axis=-1)
                cmp(ck, "synchrotron against quadrature", got[:12], w[:12], 0.02, 1e-6 * np.max(w))

        ck.case("sync:%s:%s:%d:%g:%s" % it, go)

    ck.parallel(sync, [(p, r, n, B, un) for p in PD for r in RANGE for n in NN for B in BS
                       for un in (("G", "uG", "T") if n == 10 else ("G",))])

    def sdefault():
        m = R.Synchrotron(PD["pl2"]())
        w = R.Synchrotron(PD["pl2"](), B=3.24e-6 * u.G, Eemin=1 * u.GeV, Eemax=1e9 * F.MEC2 * u.erg, nEed=100)
        E = np.logspace(-3, 6, 10) * u.eV
        ck.step(2)
        ck.state("default")
        cmp(ck, "default settings", m.flux(E).value, w.flux(E).value, 1e-9)

    ck.case("sync-default", sdefault)

    # a field change is seen by the very next call
    def ic(ck, it):
        s, p, r, n = it

        def go():
            spec, ref = SD[s]
            m = R.InverseCompton(PD[p](), spec, nEed=n, **RANGE[r])
            lo, hi = lims(r)
            gam = F.grid(lo, hi, n)
            top = gam[-1]
            eg = np.concatenate([np.logspace(-8, np.log10(top), 16), [0.5 * top, 0.99 * top, top, 1.2 * top]])
            got = m.flux((eg * F.MEC2 * u.erg).to("TeV"), distance=0).to("1/(s erg)").value * F.MEC2
            ck.step()
            ck.state(it)
            ne = nelec(p, gam)
            want = F.loglog(ne * ref(eg[:, None], gam), gam)
            ck.outcome("%.7e" % got[3])
            cmp(ck, "inverse Compton", got, want, 3e-5, 1e-12 * np.max(want * eg) / eg)

        ck.case("ic:%s:%s:%s:%d" % it, go)

    items = []
    for s in SD:
        for p in PD:
            for r in RANGE:
                for n in NN:
                    items.append((s, p, r, n))
    ck.sample(items[0])
    ck.parallel(ic, items)

    # against physics: exact convolution of the Jones kernel with the Planck law, and the
    # average over arrival directions
    def planck(ck, it):
        T, p, r = it

        def go():
            kw = dict(nEed=100, **RANGE[r])
            lo, hi = lims(r)
            gam = F.grid(lo, hi, 100)
            t = F.KB * T / F.MEC2
            eg = np.logspace(max(-9, np.log10(t)), np.log10(gam[-1] * 0.3), 7)
            ne = nelec(p, gam)
            e0, w = F.gauss_log(t * 1e-4, t * 50, 60, 4)
            want = np.zeros(len(eg))
            for i, x in enumerate(eg):
                k = np.sum(w[:, None] * F.planck(e0, T)[:, None] * F.ic_mono(x, gam[None, :], e0[:, None]), axis=0)
                want[i] = F.loglog(ne * k, gam)
            un = (eg * F.MEC2 * u.erg).to("TeV")
            got = R.InverseCompton(PD[p](), [["x", T * u.K, 0]], **kw).flux(un, distance=0).to("1/(s erg)").value * F.MEC2
            cth, cw = np.polynomial.legendre.leggauss(12)
            av = 0
            for ct, ww in zip(cth, cw):
                m = R.InverseCompton(PD[p](), [["x", T * u.K, 0, np.arccos(ct) * u.rad]], **kw)
                av = av + 0.5 * ww * m.flux(un, distance=0).to("1/(s erg)").value * F.MEC2
            # tabulated seed following the Planck law
            et = np.logspace(np.log10(t) - 4, np.log10(t) + 1.6, 800)
            m = R.InverseCompton(PD[p](), [["x", et * F.MEC2 * u.erg, F.planck(et, T) / F.MEC2 * u.Unit("1/(erg cm3)")]], **kw)
            tb = m.flux(un, distance=0).to("1/(s erg)").value * F.MEC2
            ck.step(14)
            ck.state(("planck",) + it)
            fl = 1e-3 * np.max(want * eg**2) / eg**2
            cmp(ck, "isotropic black body against exact convolution", got, want, 0.02, fl)
            cmp(ck, "average over directions against exact convolution", av, want, 0.03, fl)
            cmp(ck, "tabulated black body against exact convolution", tb, want, 0.02, fl)

        ck.case("planck:%g:%s:%s" % it, go)

    ck.parallel(planck, [(T, p, r) for T in ((2.725, 3e3, 1e5) if ck.quick else
                                                 (1.0, 2.725, 10.0, 300.0, 3e3, 3e4, 1e5, 1e6)) for p in PD for r in ("dflt", "tev")])

    # named fields
    def named():
        gam = F.grid(*lims("tev"), 20)
        eg = np.logspace(-6, 7, 12)
        ne = nelec("pl2", gam)
        for name, T, dens in (("CMB", 2.72548, None), ("FIR", 30.0, 0.5), ("NIR", 3000.0, 1.0)):
            f = 1.0 if dens is None else dens * F.EV / (F.A_R * T**4)
            want = F.loglog(ne * f * F.ic_thermal(eg[:, None], gam, T), gam)
            got = R.InverseCompton(PD["pl2"](), name, nEed=20, **RANGE["tev"]).flux(
                eg * F.MEC2 * u.erg, distance=0).to("1/(s erg)").value * F.MEC2
            ck.step()
            ck.state(("named", name))
            cmp(ck, name, got, want, 3e-5, 1e-12 * np.max(want * eg) / eg)

    ck.case("named", named)
    ck.assumptions = ["the angle-averaged and Planck-convolved cross checks use the published 1-2 % accuracy"]
