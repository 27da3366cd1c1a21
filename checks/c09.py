"""C09: bremsstrahlung and pion-decay follow the published formulas."""
TECHNIQUE = ("exhaustive enumeration of the settings product (particles x ranges x grids x weights / high-energy "
             "model x nuclear enhancement x lookup table x units) on the real models against an independent reference")
NOTE = ("Complete within the alphabets. Published formulas on the documented particle grid to 1e-5 (direct "
        "calculations), independent quadrature 1 % (Kelner model), lookup table against direct: 1 % well below the "
        "end point, 6 % near it (accuracy of the shipped table).")

import contextlib
import io
import itertools
import os
import shutil
import tempfile

import numpy as np
from astropy import units as u

from mc import env  # noqa
from mc import ref_em as F
from mc import ref_had as H
from mc.harness import Violation
from naima import models as M
from naima import radiative as R

A = 1e36 / u.eV
PD = {
    "pl2": lambda: M.PowerLaw(A, 1 * u.TeV, 2.0),
    "pl3": lambda: M.PowerLaw(A, 1 * u.TeV, 3.1),
    "ecpl": lambda: M.ExponentialCutoffPowerLaw(A, 1 * u.TeV, 2.2, 10 * u.TeV),
    "bpl": lambda: M.BrokenPowerLaw(A, 1 * u.TeV, 0.5 * u.TeV, 1.8, 3.3),
    "lp": lambda: M.LogParabola(A, 1 * u.TeV, 2.2, 0.2),
}
BR = {
    "dflt": {},
    "tev": dict(Eemin=100 * u.MeV, Eemax=50 * u.TeV),
    "low": dict(Eemin=1 * u.MeV, Eemax=0.3 * u.erg),
    "gev": dict(Eemin=5 * u.MeV, Eemax=30 * u.GeV),
}
W = {"dflt": {}, "ee": dict(weight_ee=1.0, weight_ep=0.0), "ep": dict(weight_ee=0, weight_ep=1),
     "eei": dict(weight_ee=2, weight_ep=0), "mix": dict(weight_ee=0.3, weight_ep=4.0)}
PR = {
    "dflt": {},
    "tev": dict(Epmin=2 * u.GeV, Epmax=3e5 * u.GeV),
    "low": dict(Epmin=1.23 * u.GeV, Epmax=8 * u.GeV),
    "mid": dict(Epmin=40 * u.GeV, Epmax=0.3 * u.PeV),
    "thr": dict(Epmin=1.0 * u.GeV, Epmax=1e3 * u.GeV),
    "rest": dict(Epmin=0.3 * u.GeV, Epmax=3e3 * u.GeV),
}


def cmp(what, e, got, want, tol, floor=0.0):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s" % (what, got.shape))
    ok = np.abs(got - want) <= tol * np.abs(want) + floor
    if not np.all(ok):
        i = np.argmin(ok)
        raise Violation("%s: %r instead of %r at energy %r" % (what, got[i], want[i], e[i]))


def run(ck):
    NN = [1, 10, 33, 100, 300] if ck.quick else [1, 3, 10, 33, 57, 100, 300]
    ck.bounds = dict(distributions=list(PD), ranges=list(BR) + list(PR), grids=NN, weights=list(W),
                     models=list(H.TRANS))

    def brems(ck, it):
        p, r, n, w, n0, eu = it

        def go():
            kw = dict(BR[r])
            if n:
                kw["nEed"] = n
            m = R.Bremsstrahlung(PD[p](), n0=n0, **kw, **W[w])
            lo = BR[r].get("Eemin", 100 * u.MeV).to("erg").value
            hi = BR[r].get("Eemax", 1e9 * F.MEC2 * u.erg).to("erg").value
            g = F.grid(lo, hi, n or 300)
            ne = PD[p]()(g * F.MEC2 * u.erg).to("1/erg").value * F.MEC2
            # photon energies away from the end of the electron range (cancellations)
            e = np.concatenate([np.logspace(-8, np.log10(g[-1]) - 0.2, 22), [0.3, 0.499, 0.501, 0.7, 2 * g[-1]]])
            got = m.flux((e * F.MEC2 * u.erg).to(eu), distance=0).to("1/(s erg)").value * F.MEC2
            ck.step()
            ck.state(it)
            ck.outcome("%.7e" % got[5])
            wee = W[w].get("weight_ee", (1 + 2 * 9.59e-2) / (1 + 9.59e-2))
            wep = W[w].get("weight_ep", (1 + 4 * 9.59e-2) / (1 + 9.59e-2))
            want = H.brems(e, g, ne, n0.to("cm-3").value, wee, wep)
            # roundoff of the published form of A3 at small energies, 2 MeV switch on a grid point
            cmp("bremsstrahlung", e, got, want, 1e-5)

        ck.case("br:%s:%s:%s:%s:%s:%s" % (p, r, n, w, str(n0).replace(" ", ""), eu), go)

    items = []
    for p, r, n, w in itertools.product(PD, BR, NN + [None], W):
        for n0 in ((1 / u.cm**3, 3e4 / u.m**3) if n == 10 else (20 / u.cm**3,)):
            for eu in (("eV", "TeV", "erg") if n == 10 else ("GeV",)):
                items.append((p, r, n, w, n0, eu))
    ck.sample(items[0][:4])
    ck.parallel(brems, items)

    def pions(ck, it):
        p, r, n, hi, nuc = it

        def go():
            kw = dict(PR[r])
            if n:
                kw["nEpd"] = n
            m = R.PionDecay(PD[p](), nh=2 / u.cm**3, hiEmodel=hi, nuclear_enhancement=nuc, useLUT=False, **kw)
            lo = PR[r].get("Epmin", (H.MP + H.TTH + 1e-4) * u.GeV).to("GeV").value
            up = PR[r].get("Epmax", 10 * u.PeV).to("GeV").value
            Ep = H.pgrid(lo, up, n or 100)
            e = np.concatenate([np.logspace(-3, np.log10(up) - 0.1, 16), [H.MPI / 2, 1.5 * up]])
            if lo < H.MP + H.TTH:
                # below the threshold the parametrisation is not defined: no emission from there
                J = np.where(Ep - H.MP > H.TTH, PD[p]()(Ep * u.GeV).to("1/GeV").value, 0.0)
            else:
                J = PD[p]()(Ep * u.GeV).to("1/GeV").value
            got = m.flux(e * u.GeV, distance=0).to("1/(s GeV)").value
            ck.step()
            ck.state(it)
            ck.outcome("%.7e" % got[5])
            want = 2 * H.pp(e, Ep, J, hi, nuc)
            cmp("pion decay", e, got, want, 1e-5, 1e-12 * np.max(want * e) / e)

        ck.case("pp:%s:%s:%s:%s:%d" % it, go)

    items = [(p, r, n, hi, nuc) for r in PR for n in ([1, 10, 40, None] if ck.quick else [1, 5, 10, 40, 100, None])
             for hi in H.TRANS for nuc in (True, False)
             for p in PD]
    # neighbouring items share tables
    ck.parallel(pions, items, chunks=48)

    # the lookup table against the direct calculation
    def lut(ck, it):
        p, r, n = it

        def go():
            kw = dict(PR[r], nEpd=n)
            up = PR[r].get("Epmax", 10 * u.PeV).to("GeV").value
            a = R.PionDecay(PD[p](), **kw)
            b = R.PionDecay(PD[p](), useLUT=False, **kw)
            e = np.concatenate([np.logspace(np.log10(0.011), np.log10(up) - 1.2, 14), up * np.array([0.1, 0.2, 0.3])])
            fa = a.flux(e * u.GeV, distance=0).value
            fb = b.flux(e * u.GeV, distance=0).value
            ck.step(2)
            ck.state(("lut",) + it)
            tol = np.where(e < 0.07 * up, 0.01 if n >= 50 else 0.03, 0.06)
            bad = np.abs(fa - fb) > tol * fb + 1e-6 * np.max(fb * e**2) / e**2
            if np.any(bad):
                raise Violation("table %g, direct %g at %g GeV" % (fa[bad][0], fb[bad][0], e[bad][0]))
            # outside of the table nothing is extrapolated
            x = np.array([1e-3, 5e-3]) * u.GeV
            fa, fb = a.flux(x, distance=0).value, b.flux(x, distance=0).value
            ck.step(2)
            if not np.allclose(fa, fb, rtol=0.06):
                raise Violation("below the table: %s, direct %s" % (fa, fb))

        ck.case("lut:%s:%s:%d" % it, go)

    ck.parallel(lut, [(p, r, n) for p in PD for r in ("dflt", "tev", "thr") for n in (50, 100)])

    # without a table for the settings asked for the direct calculation is used
    def nolut(ck, it):
        hi, nuc = it

        def go():
            e = np.logspace(-2, 4, 7) * u.GeV
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                f = [R.PionDecay(PD["ecpl"](), hiEmodel=hi, nuclear_enhancement=nuc, nEpd=20, useLUT=l).flux(e, distance=0).value
                     for l in (True, False)]
            ck.step(2)
            ck.state(("nolut",) + it)
            cmp("without table", e.value, f[0], f[1], 1e-9 if (hi, nuc) != ("Pythia8", True) else 0.05)

        ck.case("nolut:%s:%d" % it, go)

    ck.parallel(nolut, list(itertools.product(H.TRANS, (True, False))))

    # every order of switching the settings of one model, with or without evaluations in between
    sets = list(itertools.product(H.TRANS, (True, False), (True, False)))
    se = np.array([0.005, 0.3, 20.0, 900.0]) * u.GeV

    def setting(m, st):
        m.hiEmodel, m.nuclear_enhancement, m.useLUT = st
        return m

    def fresh(st):
        return R.PionDecay(PD["ecpl"](), hiEmodel=st[0], nuclear_enhancement=st[1], useLUT=st[2], nEpd=10,
                           Epmax=10 * u.TeV).flux(se, distance=0).value

    want = {st: fresh(st) for st in sets}

    def switch(ck, it):
        import warnings

        def go(word, skip):
            m = setting(R.PionDecay(PD["ecpl"](), nEpd=10, Epmax=10 * u.TeV), word[0])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for n, st in enumerate(word):
                    setting(m, st)
                    if n in skip:
                        continue
                    got = m.flux(se, distance=0).value
                    ck.step()
                    cmp("settings %s" % (word[:n + 1],), se.value, got, want[st], 1e-9)
            ck.state(("switch", word))

        for rest in itertools.product(sets, repeat=2 if ck.quick else 3):
            word = (it,) + rest
            for skip in ((),) if ck.quick else ((), (1,), (2,)):
                ck.case("switch:%s:%s" % ("+".join("%s.%d.%d" % s for s in word), "".join(map(str, skip))), go, word, skip)

    ck.parallel(switch, sets)

    # written tables hold the direct cross section at their nodes
    def written(ck, it):
        hi, nuc = it

        def go():
            d = tempfile.mkdtemp(prefix="naima-lut")
            try:
                Ep = np.logspace(0.0857, 5, 9) * u.GeV
                Eg = np.logspace(-4.5, 1, 7) * u.TeV
                with contextlib.redirect_stdout(io.StringIO()):
                    R.generate_lut_pp(Ep, Eg, out_base=os.path.join(d, "t_"), hiEmodel=hi, nuclear_enhancement=nuc)
                fs = os.listdir(d)
                if len(fs) != 1 or not fs[0].endswith(hi + ".npz"):
                    raise Violation("files written: %s" % fs)
                t = R.LookupTable(os.path.join(d, fs[0]))
                for eg in Eg.to("GeV").value:
                    got = np.array([t(np.array([x]), np.array([eg]))[0] for x in Ep.value])
                    want = np.array([float(H.dsig(x - H.MP, eg, hi, nuc)) for x in Ep.value]) * 1e-27
                    cmp("table node", Ep.value, got, want, 1e-6, 1e-36)
                ck.step(len(Eg))
                ck.state(("written",) + it)
            finally:
                shutil.rmtree(d)

        ck.case("written:%s:%d" % it, go)

    for it in itertools.product(H.TRANS, (True, False)):
        if ck.quick and it not in (("Pythia8", True), ("SIBYLL", False)):
            continue
        written(ck, it)

    def kelner(ck, it):
        p, et, nh = it

        def go():
            et_q = et * u.TeV
            m = R.PionDecayKelner06(PD[p](), nh=nh / u.cm**3, Etrans=et_q)
            J = lambda E: PD[p]()(E * u.TeV).to("1/TeV").value
            e = np.array([1e-4, 1e-3, 0.02, 0.09, 0.1, 0.3, 3.0, 40.0])
            got = m.flux(e * u.TeV, distance=0).to("1/(s TeV)").value
            ck.step()
            ck.state(it)
            ck.outcome("%.7e" % got[2])
            want = nh * H.k_spec(e, J, et)
            cmp("Kelner et al.", e, got, want, 0.01)
            # continuous where the two methods meet
            x = et * np.array([1 - 1e-6, 1 + 1e-6])
            f = m.flux(x * u.TeV, distance=0).value
            ck.step()
            if abs(f[0] / f[1] - 1) > 1e-2:
                raise Violation("jump at Etrans: %s" % f)

        ck.case("k06:%s:%g:%g" % it, go)

    ck.parallel(kelner, [(p, et, nh) for p in ("pl2", "pl3", "ecpl", "lp") for et in (0.1, 0.02) for nh in (1.0, 30.0)
                         if not ck.quick or (et, nh) in ((0.1, 1.0), (0.02, 30.0))])
    ck.assumptions = ["the independent reference is on the documented particle grid except for the Kelner model"]
