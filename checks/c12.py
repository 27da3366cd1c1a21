"""C12: equivalent seed photon field descriptions give equal emission."""
TECHNIQUE = ("exhaustive enumeration of descriptions (every representation of every field, every ordered subset of "
             "fields, every ill-typed description) on the real model; oracle = sum of single canonical fields")
NOTE = ("All ordered subsets of up to 3 (thorough 4) of 9 fields, all representations of each single field and all "
        "pairs of representations, 60+ ill-typed descriptions.")

import itertools

import numpy as np
from astropy import units as u

from mc import env  # noqa
from mc.common import Raised, observe
from mc.harness import Violation
from naima import models as M
from naima import radiative as R

AR = R.ar
TC = 2.72548
E = np.array([1e-3, 0.05, 1.0, 20.0, 60.0]) * u.TeV
KW = dict(nEed=10, Eemin=10 * u.GeV, Eemax=100 * u.TeV)


def pd():
    return M.ExponentialCutoffPowerLaw(1e36 / u.eV, 1 * u.TeV, 2.1, 13 * u.TeV)


def ic(spec):
    return R.InverseCompton(pd(), spec, **KW)


EVC = u.eV / u.cm**3
ARR_E = np.array([0.02, 0.5, 3.0])
ARR_N = np.array([8.0, 2.0, 0.1])
NUM = u.Unit("1/(eV cm3)")


def fields():
    f = {}
    f["CMB"] = [
        "CMB",
        ["CMB", TC * u.K, 0],
        ["CMB", TC * u.K, 0.0],
        ["CMB", TC * u.K, 0 * EVC],
        ["CMB", TC * u.K, AR * (TC * u.K) ** 4],
        ["CMB", TC * 1e3 * u.mK, 0],
        ["CMB", TC * u.K, (AR * (TC * u.K) ** 4).to("eV/cm3")],
        ["CMB", TC * 1e3 * u.mK, (AR * (TC * u.K) ** 4).to("J/m3")],
    ]
    f["FIR"] = ["FIR", ["FIR", 30 * u.K, 0.5 * EVC], ["FIR", 30.0 * u.K, (0.5 * EVC).to("erg/cm3")],
                ["FIR", 0.03 * u.kK, (0.5 * EVC).to("J/m3")], ["FIR", 30 * u.K, (0.5 * EVC).to("Pa")]]
    f["NIR"] = ["NIR", ["NIR", 3000 * u.K, 1 * EVC], ["NIR", 3 * u.kK, (1 * EVC).to("erg/cm3")]]
    f["star"] = [["star", 2e4 * u.K, 3 * EVC], ["star", 20 * u.kK, (3 * EVC).to("J/m3")],
                 ["star", 2e4 * u.K, (3 * EVC).to("dyn/cm2")]]
    f["bb"] = [["bb", 500 * u.K, 0], ["bb", 0.5 * u.kK, 0 * u.erg / u.cm**3], ["bb", 500 * u.K, AR * (500 * u.K) ** 4],
               ["bb", 500 * u.K, 0.0]]
    th = 60 * u.deg
    f["ani"] = [["ani", 5e3 * u.K, 2 * EVC, th], ["ani", 5 * u.kK, (2 * EVC).to("erg/cm3"), th.to("rad")],
                ["ani", 5e3 * u.K, 2 * EVC, th.to("arcmin")], ["ani", 5e3 * u.K, 2 * EVC, th.to("hourangle")]]
    f["anib"] = [["anib", 50 * u.K, 0, 120 * u.deg], ["anib", 50 * u.K, AR * (50 * u.K) ** 4, (120 * u.deg).to("rad")]]
    f["mono"] = [["mono", 2 * u.eV, 4 * EVC], ["mono", [2] * u.eV, [4] * EVC], ["mono", 2e-3 * u.keV, (4 * EVC).to("erg/cm3")],
                 ["mono", (2 * u.eV).to("erg"), 4 * EVC], ["mono", (2 * u.eV).to("J"), (4 * EVC).to("J/m3")],
                 ["mono", [2.0] * u.eV, 4 * EVC], ["mono", 2 * u.eV, [4.0] * EVC]]
    e, n = ARR_E * u.eV, ARR_N * NUM
    f["arr"] = [["arr", e, n], ["arr", e.to("keV"), n], ["arr", e.to("erg"), n.to("1/(erg cm3)")],
                ["arr", e, n.to("1/(J m3)")], ["arr", e, (n * e**2).to("eV/cm3")], ["arr", e.to("J"), (n * e**2).to("erg/cm3")],
                ["arr", e.to("keV"), (n * e**2).to("J/m3")], ["arr", e, (n * e**2)],
                ["arr", e, n.to("1/(TeV km3)")]]
    # rows of the table in another order
    for k, o in enumerate(list(itertools.permutations(range(len(e))))[1:]):
        o = list(o)
        f["arr"].append(["arr", e[o], n[o]] if k % 2 else ["arr", e[o].to("keV"), (n * e**2)[o].to("erg/cm3")])
    return f


def copyspec(s):
    if isinstance(s, str):
        return s
    if isinstance(s, list):
        return [copyspec(x) for x in s]
    if isinstance(s, u.Quantity):
        return s.copy()
    return s


def run(ck):
    F = fields()
    names = list(F)
    nmax = 3 if ck.quick else 4
    ck.bounds = dict(fields=names, representations={k: len(v) for k, v in F.items()}, subset_size=nmax)
    base = {n: ic([copyspec(F[n][0])]).flux(E, distance=0).to("1/(s eV)").value for n in names}
    for n in names:
        if not np.all(base[n] >= 0) or base[n][1] <= 0:
            ck.case("base:" + n, lambda: (_ for _ in ()).throw(Violation("emission %s" % base[n])))

    def check(spec, want_names, tol=1e-7):
        keep = copyspec(spec)
        m = ic(spec)
        got = m.flux(E, distance=0).to("1/(s eV)").value
        want = sum(base[n] for n in want_names)
        ck.step()
        ck.outcome("%.9e" % got[1])
        if not np.allclose(got, want, rtol=tol, atol=0):
            raise Violation("%s: %s instead of %s" % (spec, got, want))
        for n in want_names:
            g = m.flux(E, distance=0, seed=n).to("1/(s eV)").value
            ck.step()
            if not np.allclose(g, base[n], rtol=tol, atol=0):
                raise Violation("%s, field %s: %s instead of %s" % (spec, n, g, base[n]))
        if list(m.seed_photon_fields) != list(want_names):
            raise Violation("%s: fields %s" % (spec, list(m.seed_photon_fields)))
        if not eqspec(spec, keep):
            raise Violation("the description passed was modified: %s became %s" % (keep, spec))

    def single(ck, it):
        n, i = it
        def go():
            check([copyspec(F[n][i])], [n])
            ck.state(it)
            if F[n][i] == n:
                check(n, [n])
        ck.case("single:%s:%d" % it, go)

    ck.parallel(single, [(n, i) for n in names for i in range(len(F[n]))])

    def pair(ck, it):
        (n1, i1), (n2, i2) = it
        def go():
            check([copyspec(F[n1][i1]), copyspec(F[n2][i2])], [n1, n2])
            ck.state(it)
        ck.case("pair:%s-%d:%s-%d" % (n1, i1, n2, i2), go)

    reps = [(n, i) for n in names for i in range(len(F[n]))]
    ck.parallel(pair, [(a, b) for a in reps for b in reps if a[0] != b[0]])

    def subset(ck, w):
        def go():
            # representation varies with the position so that all mix
            spec = [copyspec(F[n][(k + len(w)) % len(F[n])]) for k, n in enumerate(w)]
            check(spec, list(w))
            check([copyspec(F[n][0]) for n in w], list(w))
            ck.state(w)
        ck.case("subset:" + "-".join(w), go)

    ck.parallel(subset, [w for k in range(1, nmax + 1) for w in itertools.permutations(names, k)])

    def dashes():
        for k in (1, 2, 3):
            for w in itertools.permutations(["CMB", "FIR", "NIR"], k):
                check("-".join(w), list(w))
                check(list(w), list(w))
                ck.state(("dash", w))
        m = R.InverseCompton(pd(), **KW)
        g = m.flux(E, distance=0).to("1/(s eV)").value
        ck.step()
        if not np.allclose(g, base["CMB"], rtol=1e-9):
            raise Violation("default field is not the CMB")

    ck.case("dashes", dashes)

    # the equivalent descriptions assigned to an existing model
    def reassign(ck, it):
        n, i, j = it
        def go():
            m = ic([copyspec(F[n][i])])
            a = m.flux(E, distance=0)
            m.seed_photon_fields = R.InverseCompton(pd(), [copyspec(F[n][j])]).seed_photon_fields
            b = m.flux(E, distance=0)
            ck.step(2)
            ck.state(it)
            if not np.allclose(a.value, b.value, rtol=1e-7, atol=0):
                raise Violation("%s then %s: %s, %s" % (F[n][i], F[n][j], a, b))
        ck.case("reassign:%s:%d:%d" % it, go)

    ck.parallel(reassign, [(n, i, j) for n in names for i in range(len(F[n])) for j in range(len(F[n]))])

    # ---- ill-typed descriptions ----------------------------------------------------------
    bad = {
        "unknown": "FOO", "unknown-dash": "CMB-FOO", "unknown-list": ["CMB", "FOO"], "lower": "cmb", "empty": "",
        "number": 3, "none": None, "quantity": 3 * u.K, "list-number": [3], "list-none": [None],
        "short": [["a", 3 * u.K]], "only-name": [["a"]], "long": [["a", 3 * u.K, 0, 3 * u.deg, 4]],
        "flat": ["a", 3 * u.K, 0], "tuple": [("a", 3 * u.K, 0)], "dict": [{"T": 3 * u.K}],
        "T-float": [["a", 3.0, 0]], "T-length": [["a", 3 * u.m, 0]], "T-neg": [["a", -3 * u.K, 0]],
        "T-dimless": [["a", 3 * u.dimensionless_unscaled, 0]],
        "u-float": [["a", 3 * u.K, 1.0]], "u-energy": [["a", 3 * u.K, 1 * u.eV]], "u-number": [["a", 3 * u.K, 1 / u.cm**3]],
        "u-neg": [["a", 3 * u.K, -1 * EVC]], "u-diff": [["a", 3 * u.K, 1 * NUM]],
        "theta-float": [["a", 3 * u.K, 0, 1.0]], "theta-length": [["a", 3 * u.K, 0, 1 * u.m]],
        "theta-K": [["a", 3 * u.K, 0, 1 * u.K]],
        "m-u-number": [["a", 3 * u.eV, 1 / u.cm**3]], "m-u-float": [["a", 3 * u.eV, 2.0]], "m-u-energy": [["a", 3 * u.eV, 2.0 * u.eV]],
        "m-u-diff": [["a", 3 * u.eV, 2.0 * NUM]], "m-theta": [["a", 3 * u.eV, 2.0 * EVC, 4.0]],
        "m-zero": [["a", 3 * u.eV, 0]],
        "a-u-number": [["a", [1, 2] * u.eV, [1, 2] / u.cm**3]], "a-u-energy": [["a", [1, 2] * u.eV, [1, 2] * u.eV]],
        "a-float": [["a", [1, 2] * u.eV, [1, 2]]], "a-len": [["a", [1, 2] * u.m, [1, 2] * NUM]],
        "a-theta": [["a", [1, 2] * u.eV, [1, 2] * NUM, 3 * u.m]],
        "m-u-neg": [["a", 3 * u.eV, -2.0 * EVC]],
        "a-e-neg": [["a", [-1, 2] * u.eV, [1, 2] * NUM]],
        "a-u-neg": [["a", [1, 2] * u.eV, [1, -2] * NUM]],
        "a-u-neg2": [["a", [1, 2] * u.eV, [1, -2] * EVC]],
        "m-e-neg": [["a", -3 * u.eV, 2.0 * EVC]],
        "a-shape": [["a", [1, 2, 3] * u.eV, [1, 2] * NUM]],
        "a-shape2": [["a", [1, 2, 3] * u.eV, [1, 2] * EVC]],
        "a-one-density": [["a", [1, 2, 3] * u.eV, 2 * NUM]],
        "m-two-densities": [["a", 1 * u.eV, [1, 2] * EVC]],
    }
    for k in list(bad):
        if isinstance(bad[k], list) and k not in ("flat",):
            bad[k + "+CMB"] = ["CMB"] + copyspec(bad[k])

    def reject(ck, k):
        def go():
            r = observe(R.InverseCompton, pd(), bad[k])
            ck.step()
            ck.state(("bad", k))
            ck.outcome(("bad", getattr(r, "kind", "accepted")))
            if not isinstance(r, Raised):
                raise Violation("%s accepted as %s" % (bad[k], dict(r.seed_photon_fields)))
        ck.case("bad:" + k, go)

    ck.parallel(reject, list(bad))


def eqspec(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(eqspec(x, y) for x, y in zip(a, b))
    if isinstance(a, u.Quantity):
        return a.unit == b.unit and np.array_equal(a.value, b.value)
    return a == b
