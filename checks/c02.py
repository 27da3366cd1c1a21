"""C02: caller objects are never modified and results are never shared."""
TECHNIQUE = ("explicit exploration of call histories of the real code over a catalogue of public entry points: every call is "
             "made on snapshotted mutable arguments, everything it returned is overwritten in place, and it is repeated on "
             "the same and on new arguments; all ordered pairs of cheap calls in one process; all words of evaluations and "
             "in-place changes on one object; oracle = the same call in a fresh process")
NOTE = ("about 200 calls covering models, radiative classes, validation, fitting, plotting, saving and the fitter; all ordered "
        "pairs of the cheap ones; words up to length 4 over 7 operations for every model class; "
        "every call repeated after three kinds of in-place change of its arguments and on new arguments with other numbers")

import itertools
import os
import shutil
import tempfile

import numpy as np
from astropy import units as u
from astropy.table import Column, QTable, Table

from mc import env  # noqa
from mc import chain as C
from mc import lik
from mc.common import fresh_process_map, observe, Raised
from mc.harness import Violation
from naima import models as M
from naima import radiative as R
from naima import utils as U
from naima import core, plot, analysis


# ------------------------------------------------------------------ snapshots and corruption
def snap(x, depth=0):
    """Everything a caller could notice about a mutable object."""
    if depth > 8:
        return "..."
    if isinstance(x, Table):
        return ("table", type(x).__name__, tuple(x.colnames), tuple(snap(x[c], depth + 1) for c in x.colnames),
                snap(dict(x.meta), depth + 1))
    if isinstance(x, u.Quantity):
        return ("q", str(x.unit), x.dtype.str, x.shape, x.flags.writeable, np.ascontiguousarray(x.value).tobytes())
    if isinstance(x, Column):
        return ("col", x.name, str(x.unit), x.dtype.str, x.shape, snap(np.asarray(x), depth + 1))
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "O":
            return ("o", x.shape, tuple(snap(y, depth + 1) for y in x.ravel()))
        return ("a", x.dtype.str, x.shape, x.flags.writeable, np.ascontiguousarray(x).tobytes())
    if isinstance(x, dict):
        return ("d", type(x).__name__, tuple((repr(k), snap(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(y, depth + 1) for y in x))
    if isinstance(x, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    if isinstance(x, (u.UnitBase,)):
        return ("unit", str(x))
    if hasattr(x, "get_chain") and hasattr(x, "labels"):  # a sampler
        return ("sampler", snap(np.array(x.get_chain()), depth + 1), snap(np.array(x.get_log_prob()), depth + 1),
                snap(x.get_blobs(), depth + 1), snap(x.labels, depth + 1), snap(x.data, depth + 1),
                snap(dict(x.run_info), depth + 1))
    return ("obj", type(x).__name__)


def diff(a, b, path="argument"):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s.%d" % (path, i))
            if d:
                return d
    return "%s: %s instead of %s" % (path, str(b)[:80], str(a)[:80])


def corrupt(x, depth=0):
    """Overwrite in place everything reachable in a returned object."""
    n = 0
    if depth > 8:
        return 0
    if isinstance(x, Table):
        for c in x.colnames:
            n += corrupt(x[c], depth + 1)
        n += corrupt(x.meta, depth + 1)
        return n
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "O":
            for y in x.ravel():
                n += corrupt(y, depth + 1)
            return n
        v = x.view(np.ndarray)
        if not v.flags.writeable or v.size == 0:
            return 0
        if v.dtype.kind in "fc":
            v[...] = -123.25
        elif v.dtype.kind in "iu":
            v[...] = 77
        elif v.dtype.kind == "b":
            v[...] = ~v
        elif v.dtype.kind in "SU":
            v[...] = "zz"
        else:
            return 0
        return 1
    if isinstance(x, dict):
        for y in list(x.values()):
            n += corrupt(y, depth + 1)
        x["junk"] = 1
        return n + 1
    if isinstance(x, list):
        for y in x:
            n += corrupt(y, depth + 1)
        x.append("junk")
        return n + 1
    if isinstance(x, tuple):
        for y in x:
            n += corrupt(y, depth + 1)
        return n
    return 0


def alter(x, how, depth=0):
    """Change in place the numbers in an argument (not its shape); returns how many places were changed."""
    if depth > 8:
        return 0
    if isinstance(x, Table):
        return sum(alter(x[c], how, depth + 1) for c in x.colnames)
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "O":
            return 0
        v = x.view(np.ndarray)
        if not v.flags.writeable or v.size == 0 or v.dtype.kind not in "fb":
            return 0
        if v.dtype.kind == "b":
            if how == "reverse":
                v[...] = v[::-1].copy() if v.ndim else v
            return int(how == "reverse")
        if how == "last":
            v.flat[-1] *= 1.25
        elif how == "scale":
            v *= 0.875
        elif v.ndim:
            v[...] = v[::-1].copy()
        return 1
    if isinstance(x, dict):
        return sum(alter(y, how, depth + 1) for y in x.values())
    if isinstance(x, list):
        n = 0
        for i, y in enumerate(x):
            if isinstance(y, float):
                x[i] = y * (1.25 if how == "last" and i == len(x) - 1 else 0.875 if how == "scale" else 1.0)
                n += 1
            else:
                n += alter(y, how, depth + 1)
        return n
    if isinstance(x, tuple):
        return sum(alter(y, how, depth + 1) for y in x)
    return 0


def near(a, b):
    """Results equal as numbers (and as strings) up to rounding."""
    if type(a) is not type(b) and not (isinstance(a, (int, float, np.generic)) and isinstance(b, (int, float, np.generic))):
        return False
    if isinstance(a, Raised):
        return a.kind == b.kind
    if isinstance(a, Table):
        return a.colnames == b.colnames and all(near(a[c], b[c]) for c in a.colnames) and near(dict(a.meta), dict(b.meta))
    if isinstance(a, u.Quantity):
        return a.unit == b.unit and near(a.value, b.value)
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fciub":
            return np.allclose(np.asarray(a), np.asarray(b), rtol=1e-10, atol=0, equal_nan=True)
        if a.dtype.kind == "O":
            return all(near(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return np.array_equal(a, b)
    if isinstance(a, dict):
        return list(a) == list(b) and all(near(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating, np.generic)) and np.asarray(a).dtype.kind in "fc":
        return bool(np.isclose(a, b, rtol=1e-10, atol=0, equal_nan=True))
    try:
        return bool(a == b)
    except Exception:  # noqa
        return True


# ------------------------------------------------------------------ catalogue
# name -> (build() -> list of arguments, call(*arguments) -> result, cheap)
OPS = {}


def op(name, build, call, cheap=True):
    def b():
        np.random.seed(11)
        return build()

    def c(*a):
        np.random.seed(12)
        return call(*a)

    OPS[name] = (b, c, cheap)


E3 = [0.1, 1.0, 20.0]


def energies():
    """Ways of passing photon or particle energies."""
    base = np.array([9.0, 0.1, 1.0, 8.0, 20.0, 7.0])
    return {
        "q": lambda: np.array(E3) * u.TeV,
        "kev": lambda: (np.array(E3) * 1e9) * u.keV,
        "int": lambda: u.Quantity(np.array([1, 3, 20]), u.TeV, dtype=int),
        "view": lambda: (base.copy() * u.TeV)[1::2][:2],
        "one": lambda: np.array([2.0]) * u.TeV,
        "dict": lambda: {"energy": np.array(E3) * u.TeV, "flux": np.ones(3) * C.FU},
        "table": lambda: QTable({"energy": np.array(E3) * u.TeV, "flux": np.ones(3) * C.FU}),
        "plain": lambda: Table({"energy": np.array(E3) * u.TeV, "flux": np.ones(3) * C.FU}),
        "f32": lambda: u.Quantity(np.array(E3, dtype="f4"), u.TeV),
    }


EN = energies()
AMP = lambda: np.array(1e36) / u.eV
TEV = lambda x: np.array(float(x)) * u.TeV

DISTS = {
    "pl": (lambda: [AMP(), TEV(1), 2.2], M.PowerLaw),
    "ecpl": (lambda: [AMP(), TEV(1), 2.2, TEV(15), 1.5], M.ExponentialCutoffPowerLaw),
    "bpl": (lambda: [AMP(), TEV(1), TEV(3), 1.5, 2.5], M.BrokenPowerLaw),
    "ecbpl": (lambda: [AMP(), TEV(1), TEV(3), 1.5, 2.5, TEV(30), 2.0], M.ExponentialCutoffBrokenPowerLaw),
    "lp": (lambda: [AMP(), TEV(1), 2.1, 0.2], M.LogParabola),
    "table": (lambda: [np.logspace(-3, 3, 12) * u.TeV, 1e36 * np.logspace(-3, 3, 12) ** -2.0 / u.eV, 1.0], M.TableModel),
    "tablef": (lambda: [np.logspace(-3, 3, 12) * u.TeV, 1e-12 * np.logspace(-3, 3, 12) ** -2.0, 3.0], M.TableModel),
}


def register_dists():
    for dn, (build, cls) in DISTS.items():
        for en, e in EN.items():
            op("dist:%s:%s" % (dn, en), lambda build=build, e=e: build() + [e()],
               lambda *a, cls=cls: cls(*a[:-1])(a[-1]))
        # the same object again
        op("distobj:%s" % dn, lambda build=build, cls=cls: [cls(*build()), EN["q"]()], lambda m, e: (m(e), m(e)))
    for en in ("q", "dict", "table", "view"):
        op("ebl:%s" % en, lambda en=en: [np.array(0.3), EN[en]()], lambda z, e: M.EblAbsorptionModel(float(z)).transmission(e))
    for n, fl in (("diff", lambda: np.array([1e-12, 1e-13, 1e-15]) * C.FU), ("sed", lambda: np.array([1e-12, 1e-13, 1e-15]) * u.Unit(
            "erg/(cm2 s)"))):
        op("ebltable:" + n, lambda fl=fl: [np.array(E3) * u.TeV, fl()], lambda e, f: M.TableModel(e, f)(e) if "eV" in str(
            f.unit) or True else None)


def pdist(kind="ecpl"):
    build, cls = DISTS[kind]
    return cls(*build())


class UserDist:
    """A user's distribution that hands out the same array again and again."""

    def __init__(self):
        self.kept = {}

    def __call__(self, e):
        k = e.to("TeV").value.tobytes()
        if k not in self.kept:
            self.kept[k] = 1e36 * e.to("TeV").value ** -2.2 / u.eV
        return self.kept[k]


SEEDS = {
    "cmb": lambda: ["CMB"],
    "three": lambda: ["CMB", "FIR", "NIR"],
    "mix": lambda: ["CMB", ["th", np.array(70.0) * u.K, np.array(0.4) * u.eV / u.cm**3],
                    ["ani", 3000 * u.K, 1 * u.eV / u.cm**3, np.array(120.0) * u.deg]],
    "mono": lambda: [["mono", np.array(2.0) * u.eV, np.array(3.0) * u.eV / u.cm**3]],
    "tab": lambda: [["tab", np.logspace(-3, 1, 9) * u.eV, np.logspace(-3, 1, 9) ** -1.5 / u.eV / u.cm**3]],
    "tabe": lambda: ["CMB", ["tab", np.logspace(-3, 1, 9) * u.eV, np.logspace(-3, 1, 9) ** 0.5 * u.eV / u.cm**3]],
}
LIM = lambda: dict(Eemin=np.array(10.0) * u.GeV, Eemax=np.array(300.0) * u.TeV, Eed=12)
PLIM = lambda: dict(Epmin=np.array(1.3) * u.GeV, Epmax=np.array(1.0) * u.PeV, Epd=6)
RAD = {
    "sync": (lambda: [dict(LIM(), B=np.array(3.0) * u.uG)], lambda pd, kw: M.Synchrotron(pd, **kw)),
    "brems": (lambda: [dict(LIM(), n0=np.array(3.0) / u.cm**3)], lambda pd, kw: M.Bremsstrahlung(pd, **kw)),
    "pp": (lambda: [dict(PLIM(), nh=np.array(3.0) / u.cm**3)], lambda pd, kw: M.PionDecay(pd, **kw)),
    "kelner": (lambda: [dict(nh=np.array(3.0) / u.cm**3)], lambda pd, kw: R.PionDecayKelner06(pd, **kw)),
}
for _s in SEEDS:
    RAD["ic" + _s] = (lambda _s=_s: [dict(LIM(), seed_photon_fields=SEEDS[_s]())], lambda pd, kw: M.InverseCompton(pd, **kw))


def register_radiative():
    for rn, (build, make) in RAD.items():
        slow = rn in ("kelner",)
        for en in (EN if rn in ("sync", "iccmb") else ("q", "dict", "table", "view")):
            for what in ("flux", "sed"):
                if slow and en not in ("q", "view"):
                    continue

                def call(e, d, kw, make=make, what=what):
                    m = make(pdist(), kw)
                    return getattr(m, what)(e, distance=d)

                op("%s:%s:%s" % (rn, what, en), lambda en=en, build=build: [EN[en](), np.array(1.5) * u.kpc] + build(), call,
                   not slow)
        for dk in ("table", "user"):
            def call2(pd, e, kw, make=make):
                m = make(pd, kw)
                return m.flux(e), m.sed(e, distance=0)

            op("%s:pd:%s" % (rn, dk), lambda dk=dk, build=build: [UserDist() if dk == "user" else pdist(dk), EN["q"]()] + build(),
               call2, not slow)
        if slow:
            continue
        W = "Wp" if rn == "pp" else "We"
        lims = ("Epmin", "Epmax") if rn == "pp" else ("Eemin", "Eemax")
        if rn in ("sync", "pp", "brems", "iccmb"):
            op("%s:W" % rn, lambda build=build: build() + [np.array(0.2) * u.TeV, np.array(30.0) * u.TeV],
               lambda kw, a, b, make=make, W=W, lims=lims: (
                   getattr(make(pdist(), kw), W), getattr(make(pdist(), kw), "compute_" + W)(**{lims[0]: a, lims[1]: b})))

            def call3(kw, w, a, e, make=make, W=W, lims=lims):
                m = make(pdist(), kw)
                f0 = m.flux(e)
                getattr(m, "set_" + W)(w, **{lims[0]: a})
                return f0, m.flux(e), getattr(m, W), m.particle_distribution.amplitude

            op("%s:setW" % rn, lambda build=build: build() + [np.array(1e47) * u.erg, np.array(0.2) * u.TeV, EN["q"]()], call3)

            # two models sharing one distribution
            def call4(pd, kw, e, make=make):
                a, b = make(pd, kw), M.Synchrotron(pd, B=5 * u.uG, Eed=10)
                return a.flux(e), b.flux(e), a.flux(e), pd(e)

            op("%s:shared" % rn, lambda build=build: [pdist()] + build() + [EN["q"]()], call4)
    for s in ("three", "mix", "tab", "mono"):
        def call5(e, kw):
            m = M.InverseCompton(pdist(), **kw)
            return [m.flux(e, seed=i) for i in range(len(kw["seed_photon_fields"]))] + [m.sed(e), m.flux(e)]

        op("ic%s:seeds" % s, lambda s=s: [EN["q"](), dict(LIM(), seed_photon_fields=SEEDS[s]())], call5)


def table3(cls=QTable, fmt="sym", ul=True, sed=False, n=3, order=(1, 0, 2), k=1.0):
    e = np.array([0.3, 1.0, 5.0, 9.0][:n])[list(order)] * u.TeV
    f = np.array([3e-11, 4e-12, 2e-13, 1e-14][:n])[list(order)] * k * C.FU
    if sed:
        f = (f * e**2).to("erg/(cm2 s)")
    t = QTable()
    t["energy"], t["flux"] = e, f
    if fmt == "sym":
        t["flux_error"] = 0.1 * f
    else:
        t["flux_error_lo"], t["flux_error_hi"] = 0.1 * f, 0.2 * f
    if fmt == "width":
        t["energy_width"] = 0.3 * e
    if fmt == "edges":
        t["energy_lo"], t["energy_hi"] = 0.8 * e, 1.3 * e
    if fmt == "errors":
        t["energy_error_lo"], t["energy_error_hi"] = 0.2 * e, 0.3 * e
    if ul:
        t["ul"] = [0, 0, 1, 1][:n]
        t["flux_ul"] = 2 * f
        t.meta["keywords"] = {"cl": {"value": 0.95}, "other": [1, 2]}
    if fmt == "group":
        t["group"] = [5, 5, 2, 2][:n]
    return cls(t)


def register_utils():
    for cls in (Table, QTable):
        for fmt in ("sym", "asym", "width", "edges", "errors", "group"):
            for sed in (None, True, False):
                for ul in (True, False):
                    op("validate:%s:%s:%s:%d" % (cls.__name__, fmt, sed, ul), lambda cls=cls, fmt=fmt, ul=ul: [table3(cls, fmt, ul)],
                       lambda t, sed=sed: U.validate_data_table(t, sed=sed))
        op("validate2:%s" % cls.__name__, lambda cls=cls: [[table3(cls, "asym"), table3(cls, "width", False, True, 2, (1, 0), 1e3)]],
           lambda t: U.validate_data_table(t))
        op("revalidate:%s" % cls.__name__, lambda cls=cls: [table3(cls, "edges")],
           lambda t: U.validate_data_table([U.validate_data_table(t, sed=False)], sed=True))
    for sed in (True, False):
        for un in (C.FU, u.Unit("erg/(cm2 s)"), u.Unit("erg/s"), u.Unit("1/(s TeV)"), u.erg, u.Unit("1/eV")):
            op("sedconv:%s:%s" % (sed, un), lambda: [EN["q"]()], lambda e, un=un, sed=sed: U.sed_conversion(e, un, sed))
    op("trapz", lambda: [np.array([1.0, 0.0, 3.0]) * C.FU, EN["q"]()], lambda y, x: U.trapz_loglog(y, x))
    op("trapzi", lambda: [np.array([[1.0, 2.0, 3.0], [0.0, 1.0, 2.0]]), np.array(E3)],
       lambda y, x: U.trapz_loglog(y, x, intervals=True))
    for g in (None, [0, 0, 1], [0, 1, 2]):
        op("edges:%s" % g, lambda g=g: [np.array([5.0, 0.2, 1.0]) * u.TeV, None if g is None else np.array(g)],
           lambda e, g: U.generate_energy_edges(e, groups=g))
    op("build", lambda: [EN["q"](), np.ones(3) * C.FU, np.ones(3) * 0.1 * C.FU, 0.1 * EN["q"](), [0, 1, 0]],
       lambda e, f, d, w, ul: U.build_data_table(e, f, flux_error=d, energy_width=w, ul=ul, cl=0.9))
    op("build2", lambda: [EN["q"](), np.ones(3) * C.FU, np.ones(3) * 0.1 * C.FU, 0.9 * EN["q"](), 1.1 * EN["q"](),
                          np.array([False, True, False])],
       lambda e, f, d, a, b, ul: U.build_data_table(e, f, flux_error_lo=d, flux_error_hi=d, energy_lo=a, energy_hi=b, ul=ul))
    op("estB", lambda: [table3(k=1e9), table3(Table, "width", True, True), np.array(1.0) * u.eV / u.cm**3],
       lambda x, v, d: U.estimate_B(x, v, photon_energy_density=d))
    op("estB0", lambda: [[table3(k=1e9)], table3()], lambda x, v: U.estimate_B(x, v))
    op("priors", lambda: [np.array([0.5, 2.0])], lambda v: [core.uniform_prior(v[0], 0, 1), core.normal_prior(v[1], 1, 2),
                                                         core.log_uniform_prior(v[1], 1, 3)])


KEPT = {}


def kept_model(p, data):
    """A user's model that returns the same arrays for the same parameters."""
    k = (tuple(float(x) for x in p), data["energy"].to("TeV").value.tobytes())
    if k not in KEPT:
        e = data["energy"]
        f = C.fluxes(p, e.to("TeV").value) * C.FU
        KEPT[k] = (f, [np.array([1.0, 2.0]) * u.TeV, np.array([3.0, 4.0]) * p[0] / u.erg], np.array(5.0) * p[0] * u.erg)
    return KEPT[k]


def register_core():
    import emcee  # noqa

    def model(p, data):
        return C.fluxes(p, data["energy"].to("TeV").value) * C.FU

    def prior(p):
        return core.uniform_prior(p[0], 0, 10)

    P0 = {"list": lambda: [2.2, 1.9], "array": lambda: np.array([2.2, 1.9]), "ints": lambda: np.array([2, 2]),
          "f4": lambda: np.array([2.2, 1.9], dtype="f4"), "tuple": lambda: (2.2, 1.9)}
    LAB = {"full": lambda: ["norm", "index"], "short": lambda: ["norm"], "none": lambda: None, "log": lambda: ["log10(norm)", "index"],
           "tuple": lambda: ("norm", "index")}

    def out(s, pos):
        return [np.array(getattr(pos, "coords", pos)), list(s.labels), dict(s.run_info), s.data, np.array(s.get_chain()) if s.iteration else None]

    for pn in P0:
        for ln in LAB:
            for guess, prefit, nb in ((False, False, 0), (True, False, 0), (False, True, 0), (False, False, 2)):
                if (pn not in ("list", "array") or ln in ("tuple", "none")) and (prefit or nb):
                    continue

                def call(t, p0, lab, opts, guess=guess, prefit=prefit, nb=nb):
                    np.random.seed(3)
                    with lik.quiet():
                        s, pos = core.get_sampler(data_table=t, p0=p0, model=model, prior=prior, nwalkers=8, nburn=nb, guess=guess,
                                                  prefit=prefit, labels=lab, threads=1, **opts)
                    return out(s, pos)

                op("get:%s:%s:%d%d%d" % (pn, ln, guess, prefit, nb),
                   lambda pn=pn, ln=ln: [C.data_table(5), P0[pn](), LAB[ln](), {}], call, False)

    def run(t, p0, lab):
        KEPT.clear()
        np.random.seed(3)
        with lik.quiet():
            s, pos = core.get_sampler(data_table=t, p0=p0, model=kept_model, nwalkers=8, nburn=1, guess=False, labels=lab, threads=1)
            first = {k: snap(v) for k, v in KEPT.items()}
            s, pos = core.run_sampler(sampler=s, pos=pos, nrun=2)
        for k, v in first.items():
            if snap(KEPT[k]) != v:
                raise Violation("an object returned by the model function was modified")
        return [np.array(s.get_chain()), np.array(s.get_log_prob()), [[snap(x) for x in w] for w in s.get_blobs()[-1]]]

    op("run", lambda: [C.data_table(5), [2.2, 1.9], ["norm", "index"]], run, False)
    op("runlist", lambda: [[C.data_table(3), C.data_table(5, sed=True)], np.array([2.2, 1.9]), ["norm", "index"]], run, False)

    def runkw(t, p0, lab, kw):
        np.random.seed(3)
        with lik.quiet():
            s, pos = core.run_sampler(nrun=2, data_table=t, p0=p0, model=model, labels=lab, nwalkers=8, nburn=1, threads=1, **kw)
        return out(s, pos)

    op("runkw", lambda: [C.data_table(5), [2.2, 1.9], ["norm"], dict(guess=False, prefit=True)], runkw, False)

    # continuing from positions given by the caller
    def cont(s, pos):
        s.reset()
        s.random_state = np.random.RandomState(5).get_state()
        with lik.quiet():
            s2, p2 = core.run_sampler(sampler=s, pos=pos, nrun=2)
        return [np.array(s2.get_chain()[-2:])]

    def build_cont():
        np.random.seed(3)
        with lik.quiet():
            s, pos = core.get_sampler(data_table=C.data_table(5), p0=[2.2, 1.9], model=model, nwalkers=8, nburn=0, guess=False,
                                      threads=1)
        return [Opaque(s), np.array(getattr(pos, "coords", pos))]

    op("continue", build_cont, lambda s, pos: cont(s.x, pos), False)


class Opaque:
    """Not an object of the property."""

    def __init__(self, x):
        self.x = x


def stored_run(kind="kept", data=None):
    t = C.data_table(5) if data is None else data
    s, _ = lik.make_sampler(t, kept_model, [2.2, 1.9], nwalkers=4, labels=["log10(norm)", "index"])
    pars = np.array([[[2.2 + 0.1 * i + 0.03 * j, 1.9 - 0.02 * i + 0.05 * j] for j in range(4)] for i in range(3)])
    logp = [[-1.0 - ((3 * i + j * 5) % 7) for j in range(4)] for i in range(3)]
    KEPT.clear()
    bl = [[[y for y in kept_model(p, s.data)] for p in st] for st in pars]
    C.stored(s, pars, logp, bl)
    s.run_info = dict(s.run_info, n_run=3, p0=[2.2, 1.9])
    return s


def sampler_result(s):
    return snap(s)


def figure_text(f):
    """What a figure shows, in numbers and strings."""
    out = []
    for ax in f.axes:
        out.append([ax.get_xscale(), ax.get_yscale(), ax.get_xlabel(), ax.get_ylabel(), [t.get_text() for t in ax.texts],
                    np.array(ax.get_xlim()), np.array(ax.get_ylim())])
        for ln in ax.lines:
            out.append([np.array(u.Quantity(ln.get_xdata()).value, dtype=float), np.array(u.Quantity(ln.get_ydata()).value, dtype=float),
                        str(ln.get_color()), float(ln.get_linewidth())])
        for co in ax.collections:
            out.append([np.array(p.vertices) for p in co.get_paths()][:12] + [np.array(co.get_linewidth()), np.array(co.get_facecolor())])
    return out


def register_outputs():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    def figop(name, build, call):
        def go(*a):
            plt.close("all")
            with lik.quiet():
                f = call(*a)
            r = figure_text(f)
            plt.close("all")
            return r

        op(name, build, go, False)

    figop("plot_chain", lambda: [stored_run()], lambda s: plot.plot_chain(s, 1))
    figop("plot_chain_last", lambda: [stored_run(), {"last_step": True}], lambda s, k: plot.plot_chain(s, 0, **k))
    CONFS = {"std": lambda: [3, 1], "asc": lambda: [1, 2, 3], "one": lambda: [2], "tup": lambda: (3, 1, 2), "arr": lambda: np.array(
        [2.0, 1.0])}
    for cn, cf in CONFS.items():
        figop("plot_fit:confs:%s" % cn, lambda cf=cf: [stored_run(), cf()], lambda s, c: plot.plot_fit(s, confs=c))
    figop("plot_fit:model", lambda: [stored_run()], lambda s: plot.plot_fit(s, modelidx=1))
    figop("plot_fit:ML", lambda: [stored_run()], lambda s: plot.plot_fit(s, ML_info=True, label="x", sed=False))
    for er in (lambda: [0.2 * u.TeV, 30 * u.TeV], lambda: np.array([0.2, 30.0]) * u.TeV, lambda: [200 * u.GeV, 30 * u.TeV]):
        figop("plot_fit:range%d" % len(OPS), lambda er=er: [stored_run(), er()],
              lambda s, e: plot.plot_fit(s, e_range=e, e_npoints=8, confs=[1], e_unit=u.GeV, threads=1) if False else plot.plot_fit(
                  s, e_range=e, e_npoints=8, n_samples=None, confs=None))
    figop("plot_fit:nsamp", lambda: [stored_run()], lambda s: (np.random.seed(2), plot.plot_fit(s, n_samples=3))[1])
    figop("plot_fit:opts", lambda: [stored_run(), dict(elinewidth=3, capsize=4), dict(marker="s", ms=4), [[0.1, 0.2, 0.3]]],
          lambda s, a, b, c: plot.plot_fit(s, ulim_opts=a, errorbar_opts=b, data_color=c[0]))
    figop("plot_blob:array", lambda: [stored_run()], lambda s: plot.plot_blob(s, 0))
    figop("plot_blob:pair", lambda: [stored_run()], lambda s: plot.plot_blob(s, 1))
    figop("plot_blob:scalar", lambda: [stored_run()], lambda s: plot.plot_blob(s, 2, label="w"))
    figop("plot_corner", lambda: [stored_run(), dict(quantiles=[0.2, 0.5], labels=["a", "b"])],
          lambda s, k: plot.plot_corner(s, **k))
    figop("plot_corner0", lambda: [stored_run()], lambda s: plot.plot_corner(s))
    figop("plot_corner:truths", lambda: [stored_run(), np.array([2.3, 1.9])], lambda s, t: plot.plot_corner(s, truths=t))
    # tables and lists of tables
    V = lambda: U.validate_data_table(table3(n=4, order=(0, 1, 2, 3), fmt="asym"))
    PD = {"table": lambda: table3(n=4, order=(2, 0, 1, 3), fmt="width"), "plain": lambda: table3(Table, n=4, order=(2, 0, 1, 3)),
          "valid": V, "list": lambda: [table3(n=4, order=(0, 1, 2, 3)), table3(Table, "asym", True, True)],
          "nogroup": lambda: (lambda t: (t.remove_column("group"), t)[1])(V()),
          "run": stored_run}
    for n, b in PD.items():
        for sed in (True, False):
            figop("plot_data:%s:%d" % (n, sed), lambda b=b: [b(), dict(elinewidth=3), dict(ms=5)],
                  lambda d, a, o, sed=sed: plot.plot_data(d, sed=sed, ulim_opts=a, errorbar_opts=o))
    # tables that reach each special case of the drawing: lower errors above the flux, negative fluxes, groups, limits

    def special(err, ul, group):
        t = table3(n=4, order=(0, 1, 2, 3), ul=ul, fmt="asym")
        if ul and ul != "all":
            t["ul"] = [0, 0, 0, 1]
        if ul == "all":
            t["ul"] = [1, 1, 1, 1]
        if "big" in err:
            t["flux_error_lo"][1] = 3 * t["flux"][1]
        if "neg" in err:
            t["flux"][2] = -t["flux"][2]
            t["flux_error_lo"][2] = -t["flux_error_lo"][2]
        if group == 2:
            t["group"] = [0, 1, 1, 0]
        d = U.validate_data_table(t)
        if group == 0:
            d.remove_column("group")
        return d

    for err in ("none", "big", "big,neg"):
        for ul in (False, True):
            for group in (0, 1, 2):
                sp = lambda err=err, ul=ul, group=group: special(err, ul, group)
                tag = "%s:ul%d:g%d" % (err, ul, group)
                for sed in (True, False):
                    figop("special:data:%s:%d" % (tag, sed), lambda sp=sp: [sp()], lambda d, sed=sed: plot.plot_data(d, sed=sed))
                if group == 0:
                    continue
                figop("special:run_data:%s" % tag, lambda sp=sp: [stored_run(data=sp())], lambda s: plot.plot_data(s))
                figop("special:fit:%s" % tag, lambda sp=sp: [stored_run(data=sp())], lambda s: plot.plot_fit(s, confs=[1], sed=False))
                if group == 1:
                    figop("special:fitrange:%s" % tag, lambda sp=sp: [stored_run(data=sp()), [0.2 * u.TeV, 30 * u.TeV]],
                          lambda s, e: plot.plot_fit(s, e_range=e, e_npoints=4, confs=None, n_samples=None))
                figop("special:resid:%s" % tag, lambda sp=sp: [sp(), 1.1 * sp()["flux"], sp()["energy"]],
                      lambda d, m, e: resid(d, m, e))
    figop("plot_data:colors", lambda: [PD["list"](), [[0.1, 0.2, 0.3]]], lambda d, c: plot.plot_data(d, data_color=c[0]))
    figop("plot_data:again", lambda: [V()], lambda d: plot.plot_data(d, figure=plot.plot_data(d)))

    def resid(d, m, e):
        f, ax = plt.subplots()
        # no public function draws them without a sampler
        draw = getattr(plot, "_plot_residuals_to_ax", None)
        if draw is not None:
            draw(d, (e, m), ax, sed=False)
        return f

    for n in ("valid", "nogroup"):
        figop("residuals:%s" % n, lambda n=n: [PD[n](), 1.1 * V()["flux"], V()["energy"]], resid)
        figop("residuals2:%s" % n, lambda n=n: [PD[n](), np.ones(4) * C.FU * 1e-12, np.array([0.1, 1.0, 3.0, 40.0]) * u.TeV], resid)

    def files(fn):
        d = tempfile.mkdtemp(prefix="c02.")
        old = os.getcwd()
        try:
            os.chdir(d)
            plt.close("all")
            with lik.quiet():
                return fn()
        finally:
            os.chdir(old)
            plt.close("all")
            shutil.rmtree(d, ignore_errors=True)

    def table_of(s, **k):
        t = files(lambda: analysis.save_results_table("x", s, **k))
        return t

    op("results", lambda: [stored_run()], table_of, False)
    op("results_opts", lambda: [stored_run(), dict(convert_log=False, last_step=True, format="ascii.ipac", include_blobs=False)],
       lambda s, k: table_of(s, **k), False)
    op("read_run", lambda: [stored_run()], lambda s: files(lambda: saved(s)), False)

    def saved(s):
        analysis.save_run("x.h5", s)
        r = analysis.read_run("x.h5")
        return [np.array(r.get_chain()), np.array(r.get_log_prob()), snap(r.get_blobs()), list(r.labels), r.data,
                {k: v for k, v in r.run_info.items()}]

    def readtwice(s):
        analysis.save_run("x.h5", s)
        r = analysis.read_run("x.h5")
        a = [r.get_chain(), r.get_log_prob(), r.get_blobs(), r.labels, r.data, r.run_info]
        first = snap(a)
        corrupt(a)
        r = analysis.read_run("x.h5")
        if snap([r.get_chain(), r.get_log_prob(), r.get_blobs(), r.labels, r.data, r.run_info]) != first:
            raise Violation("the run is read differently after the first reading was overwritten in memory")
        return first

    op("read_twice", lambda: [stored_run()], lambda s: files(lambda: readtwice(s)), False)

    def diag(s, idx, labels, sed=True, **k):
        def go():
            np.random.seed(1)
            analysis.save_diagnostic_plots("x", s, modelidxs=idx, blob_labels=labels, sed=sed, dpi=30, **k)
            return sorted(os.listdir("."))

        return files(go)

    op("diag", lambda: [stored_run(), [0, 1, 2], ["flux", "pair", "scalar"]], diag, False)
    op("diag_short", lambda: [stored_run(), [0, 1, 2], ["flux"]], diag, False)
    op("diag_none", lambda: [stored_run(), None, None], diag, False)
    op("diag_pdf", lambda: [stored_run(), [2], "scalar", [False]], lambda s, i, lb, sed: diag(s, i, lb, sed, pdf=True), False)

    def fitter(p0, labels, t, er, auto):
        from naima.model_fitter import InteractiveModelFitter

        def m(p, data):
            return C.fluxes(p, data["energy"].to("TeV").value) * C.FU

        plt.close("all")
        with lik.quiet():
            f = InteractiveModelFitter(m, p0, data=t, labels=labels, e_range=er, e_npoints=7, auto_update=auto)
            f.parsliders[0].set_val(2.5)
            f.update("x")
            r = [list(float(x) for x in f.pars)]
            if t is not None:
                f.do_fit("x")
            r.append([float(x) for x in f.pars])
            f.close_fig("x")
        plt.close("all")
        return r + [f.pars]

    for pn, p0 in (("list", lambda: [2.2, 1.9]), ("array", lambda: np.array([2.2, 1.9]))):
        for ln, lb in (("full", lambda: ["norm", "index"]), ("short", lambda: ["norm"]), ("none", lambda: None)):
            op("fitter:%s:%s" % (pn, ln), lambda p0=p0, lb=lb: [p0(), lb(), C.data_table(5), [0.2 * u.TeV, 30 * u.TeV], True], fitter,
               False)
    op("fitter:nodata", lambda: [[2.2, 1.9], ["norm"], None, [0.2 * u.TeV, 30 * u.TeV], False], fitter, False)

    def untouched(p0, t):
        """A fitter that was only opened returns a vector that is not the caller's object."""
        from naima.model_fitter import InteractiveModelFitter

        plt.close("all")
        with lik.quiet():
            f = InteractiveModelFitter(lambda p, d: C.fluxes(p, d["energy"].to("TeV").value) * C.FU, p0, data=t)
        plt.close("all")
        return f.pars

    op("fitter:open", lambda: [[2.2, 1.9], C.data_table(5)], untouched, False)
    op("fitter:opena", lambda: [np.array([2.2, 1.9]), C.data_table(5)], untouched, False)


register_dists()
register_radiative()
register_utils()
register_core()
register_outputs()


def fresh(name):
    import logging

    import warnings

    warnings.simplefilter("ignore")
    logging.getLogger("astropy").setLevel(logging.ERROR)
    build, call, _ = OPS[name]
    return observe(call, *build())


def run(ck):
    import warnings

    from astropy import log

    warnings.simplefilter("ignore")
    log.setLevel("ERROR")
    names = list(OPS)
    ck.bounds = dict(calls=len(names), pairs="all ordered pairs of cheap calls", words=4 if ck.quick else 5)
    ref = dict(zip(names, fresh_process_map(fresh, names)))

    # A. one call, repeated
    def single(ck, n):
        def go():
            build, call, _ = OPS[n]
            want = ref[n]
            a = build()
            before = snap(a)
            held = [x.kept if isinstance(x, UserDist) else None for x in a]
            for rep in range(2):
                r = observe(call, *a)
                ck.step()
                d = diff(before, snap(a))
                if d:
                    raise Violation("%s: call %d modified an argument: %s" % (n, rep + 1, d))
                if isinstance(r, Raised) and not isinstance(want, Raised):
                    raise Violation("%s: call %d raised %r" % (n, rep + 1, r))
                if not near(r, want):
                    raise Violation("%s: call %d on the same arguments differs from a first call" % (n, rep + 1))
                users = [{k: snap(v) for k, v in x.items()} for x in held if x is not None]
                corrupt(r)
                d = diff(before, snap(a))
                if d:
                    raise Violation("%s: overwriting the result modified an argument: %s" % (n, d))
                if users != [{k: snap(v) for k, v in x.items()} for x in held if x is not None]:
                    raise Violation("%s: overwriting the result modified an array of the user's distribution" % n)
                # what the user's distribution handed out must still be what it computed
                for x in held:
                    for k, v in (x or {}).items():
                        e = np.frombuffer(k)
                        if not np.allclose(np.ravel(v.value), 1e36 * e ** -2.2, rtol=1e-12, atol=0):
                            raise Violation("%s: an array of the user's distribution was modified" % n)
                ck.outcome((n, isinstance(r, Raised)))
            r = observe(call, *build())
            if not near(r, want):
                raise Violation("%s: a later call on new arguments differs from one in a fresh process" % n)
            ck.state(n)

        ck.case("single:%s" % n, go)

    ck.parallel(single, names)

    # B. ordered pairs of cheap calls in one process
    cheap = [n for n in names if OPS[n][2] and not isinstance(ref[n], Raised)]
    if ck.quick:
        # one representative of every kind, in all orders
        keep, seen = [], set()
        for n in cheap:
            k = n.split(":")
            k = tuple(k[:2]) if k[0] in ("dist", "validate") or k[0] in RAD else (n,)
            if k not in seen:
                seen.add(k)
                keep.append(n)
        cheap = keep

    def pairs(ck, x):
        def go():
            for y in cheap:
                corrupt(observe(OPS[x][1], *OPS[x][0]()))
                a = OPS[y][0]()
                before = snap(a)
                r = observe(OPS[y][1], *a)
                ck.step(2)
                if not near(r, ref[y]):
                    raise Violation("%s after %s (its results overwritten) differs from %s in a fresh process" % (y, x, y))
                d = diff(before, snap(a))
                if d:
                    raise Violation("%s after %s modified an argument: %s" % (y, x, d))
                ck.state((x, y))

        ck.case("pairs:%s" % x, go)

    ck.parallel(pairs, cheap)

    # C. words on one object: evaluations, overwritten results, energies changed by the caller in place
    def words(ck, it):
        kind, w = it

        def go():
            make, evals = OBJ[kind]
            obj = make()
            arrs = {k: v() for k, v in ARR.items()}
            last = None
            for i, o in enumerate(w):
                what = "%s: %s" % (kind, ".".join(w[:i + 1]))
                if o == "over":
                    corrupt(last)
                elif o == "swap":
                    a = arrs["a"].view(np.ndarray)
                    a[...] = np.array([0.3, 2.0, 9.0]) if a[0] != 0.3 else np.array(E3)
                else:
                    e = arrs["a"] if o[0] == "a" else arrs["b"]
                    before = snap(e)
                    last = evals[o[1]](obj, e)
                    ck.step()
                    if snap(e) != before:
                        raise Violation("%s: the energies were modified" % what)
                    want = wref[(kind, o[1], tuple(e.value), str(e.unit))]
                    if not near(last, want):
                        raise Violation("%s: result differs from that of a new object in a fresh process" % what)
            ck.state((kind, w))

        ck.case("word:%s:%s" % (kind, ".".join(w)), go)

    ARR = {"a": lambda: np.array(E3) * u.TeV, "b": lambda: np.array([1e8, 7e9]) * u.keV}
    OBJ = {}
    for dn, (b, c) in DISTS.items():
        OBJ["dist " + dn] = (lambda b=b, c=c: c(*b()), {"0": lambda m, e: m(e), "1": lambda m, e: m({"energy": e})})
    for rn in ("sync", "brems", "pp", "icmix", "ictab"):
        b, mk = RAD[rn]
        OBJ[rn] = (lambda b=b, mk=mk: mk(pdist(), b()[0]), {"0": lambda m, e: m.flux(e), "1": lambda m, e: m.sed(
            e, distance=2 * u.kpc)})
    OBJ["icseed"] = (lambda: M.InverseCompton(pdist(), **dict(LIM(), seed_photon_fields=SEEDS["mix"]())),
                     {"0": lambda m, e: m.flux(e, seed="CMB"), "1": lambda m, e: m.flux(e, seed=1)})
    OBJ["icuser"] = (lambda: M.InverseCompton(UserDist(), **dict(LIM(), seed_photon_fields=["CMB"])),
                     {"0": lambda m, e: m.flux(e), "1": lambda m, e: m.sed(e)})
    OBJ["ebl"] = (lambda: M.EblAbsorptionModel(0.2), {"0": lambda m, e: m.transmission(e), "1": lambda m, e: m(e)})
    al = ("a0", "a1", "b0", "b1", "over", "swap")
    keys = []
    for k in OBJ:
        for o in "01":
            for vals, un in (((E3), "TeV"), ([0.3, 2.0, 9.0], "TeV"), ([1e8, 7e9], "keV")):
                keys.append((k, o, tuple(np.array(vals, dtype=float)), un))

    def wfresh(key):
        k, o, vals, un = key
        return OBJ[k][1][o](OBJ[k][0](), np.array(vals) * u.Unit(un))

    wref = dict(zip(keys, fresh_process_map(wfresh, keys)))
    wl = []
    for k in OBJ:
        d = 4 if ck.quick else 5
        if k in ("pp", "brems", "icmix", "icseed", "ictab") or ck.quick and not k.startswith(("dist ecpl", "dist table", "sync")):
            d -= 1
        for w in itertools.product(al, repeat=d):
            if w[-1] in ("over", "swap") or w[0] == "over" or not any(x in ("over", "swap") for x in w):
                continue
            wl.append((k, w))
    ck.parallel(words, wl)

    # D. every call repeated after the caller changed the numbers in its own arguments, or on new arguments with other numbers
    HOW = ("last", "scale", "reverse")

    def altered(key):
        n, how = key
        import logging
        import warnings

        warnings.simplefilter("ignore")
        logging.getLogger("astropy").setLevel(logging.ERROR)
        build, call, _ = OPS[n]
        a = build()
        if not alter(list(a), how):
            return "same"
        return observe(call, *a)

    sel = [n for n in names if not (ck.quick and n.startswith(("special:", "get:")) and ":g0" not in n and "full" not in n)]
    keys = [(n, h) for n in sel for h in HOW]
    aref = dict(zip(keys, fresh_process_map(altered, keys)))

    def change(ck, it):
        n, how = it

        def go():
            want = aref[it]
            if isinstance(want, str) and want == "same":
                return
            build, call, _ = OPS[n]
            a = build()
            observe(call, *a)
            alter(list(a), how)
            ck.step(2)
            if not near(observe(call, *a), want):
                raise Violation("%s: after the caller changed its arguments in place (%s) the answer is not that for the new numbers"
                                % (n, how))
            del a
            for _ in range(2):
                a = build()
                observe(call, *a)
                del a
                a = build()
                alter(list(a), how)
                ck.step(2)
                if not near(observe(call, *a), want):
                    raise Violation("%s: the answer for new arguments (%s) is not that for their numbers" % (n, how))
                del a
            ck.state((n, how, "altered"))

        ck.case("altered:%s:%s" % (n, how), go)

    ck.parallel(change, keys)
