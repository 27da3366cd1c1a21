"""C10: functional and tabulated particle models equal their closed forms."""
TECHNIQUE = ("exhaustive enumeration of parameter grids, energy containers/units/shapes and parameter-change words "
             "on the real models against scalar closed forms evaluated in logarithms")
NOTE = ("Complete within the alphabets: full product of parameter values per model, 57 decades of energy "
        "including each characteristic energy and its float neighbours, 7 units, 5 containers, words of up to "
        "2 (thorough 3) parameter changes.")

import itertools
import math

import numpy as np
from astropy import units as u
from astropy.table import QTable, Table

from mc import env  # noqa
from mc.common import Raised, observe
from mc.harness import Violation
from naima import models as M

UN = {"eV": 1.0, "keV": 1e3, "MeV": 1e6, "GeV": 1e9, "TeV": 1e12}
ALPHA = [-1, 0.0, 2, 2.5, 6.0]
EREF = [("TeV", 1.0), ("GeV", 30.0), ("keV", 7.0)]
BETA = [0.5, 1, 2.0]
CUT = [("TeV", 13.0), ("MeV", 2.0)]
BRK = [("TeV", 3.0), ("GeV", 0.5)]
AMPS = ["1/eV", "1/(cm2 s TeV)", "erg/(cm2 s)", ""]


def ev(q):
    return UN[q[0]] * q[1]


def q(x):
    return x[1] * u.Unit(x[0])


def lexp(t):
    if t > 709.7:
        return math.inf
    return math.exp(t) if t > -745 else 0.0


def lpow(e, p):
    return -p["alpha"] * math.log(e / ev(p["e_0"]))


def lbpl(e, p):
    l0 = math.log(e / ev(p["e_0"]))
    if e < ev(p["e_break"]):
        return -p["alpha_1"] * l0
    return (p["alpha_2"] - p["alpha_1"]) * math.log(ev(p["e_break"]) / ev(p["e_0"])) - p["alpha_2"] * l0


def lcut(e, p):
    t = p["beta"] * math.log(e / ev(p["e_cutoff"]))
    return -lexp(t)


MODELS = {
    "PowerLaw": (["amplitude", "e_0", "alpha"], lpow),
    "ExponentialCutoffPowerLaw": (["amplitude", "e_0", "alpha", "e_cutoff", "beta"],
                                  lambda e, p: lpow(e, p) + lcut(e, p)),
    "BrokenPowerLaw": (["amplitude", "e_0", "e_break", "alpha_1", "alpha_2"], lbpl),
    "ExponentialCutoffBrokenPowerLaw": (
        ["amplitude", "e_0", "e_break", "alpha_1", "alpha_2", "e_cutoff", "beta"],
        lambda e, p: lbpl(e, p) + lcut(e, p)),
    "LogParabola": (["amplitude", "e_0", "alpha", "beta"],
                    lambda e, p: (-p["alpha"] - p["beta"] * math.log(e / ev(p["e_0"]))) * math.log(e / ev(p["e_0"]))),
}
DOM = dict(amplitude=[3.5e-12], e_0=EREF, alpha=ALPHA, e_cutoff=CUT, e_break=BRK, alpha_1=[-1, 1.5, 2],
           alpha_2=[0, 2.7, 4], beta=BETA)


def domain(name, par):
    if name == "LogParabola" and par == "beta":
        return [-0.1, 0.0, 0.2, 1]
    return DOM[par]


def make(name, p, aunit):
    a = p["amplitude"] * u.Unit(aunit) if aunit else p["amplitude"]
    kw = {k: (q(v) if isinstance(v, tuple) else v) for k, v in p.items()}
    kw["amplitude"] = a
    return getattr(M, name)(**kw)


def energies(p):
    e = [10.0**k for k in range(-18, 39, 3)]
    for k in ("e_0", "e_break", "e_cutoff"):
        if k in p:
            x = ev(p[k])
            e += [x, np.nextafter(x, 0), np.nextafter(x, 1e300), x * 0.5, x * 3]
    return sorted(e)


def check_values(name, p, e, got, aunit, what, tol=1e-9):
    want = np.array([p["amplitude"] * lexp(MODELS[name][1](x, p)) for x in e])
    if isinstance(got, Raised):
        raise Violation("%s: %r" % (what, got))
    if aunit:
        if not isinstance(got, u.Quantity) or got.unit != u.Unit(aunit):
            raise Violation("%s: unit %s instead of %s" % (what, getattr(got, "unit", None), aunit))
        got = got.value
    elif isinstance(got, u.Quantity):
        if got.unit != u.dimensionless_unscaled:
            raise Violation("%s: unit %s for a plain amplitude" % (what, got.unit))
        got = got.value
    got = np.asarray(got, float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s instead of %s" % (what, got.shape, want.shape))
    # the exponent amplifies rounding of the energies
    slack = np.array([tol * (1 + abs(MODELS[name][1](x, p))) for x in e])
    ok = (got == want) | (np.abs(got - want) <= slack * np.abs(want) + 1e-300)
    if not np.all(ok):
        i = np.argmin(ok)
        raise Violation("%s: f(%r eV) = %r instead of %r with %s" % (what, e[i], got[i], want[i], p))


def run(ck):
    depth = 2 if ck.quick else 3
    ck.bounds = dict(models=list(MODELS) + ["TableModel"], domains={k: str(v) for k, v in DOM.items()},
                     change_depth=depth)

    def grid(name):
        pars = MODELS[name][0]
        for vals in itertools.product(*[domain(name, k) for k in pars]):
            yield dict(zip(pars, vals))

    def closed(ck, it):
        name, i, p = it

        def go():
            for aunit in (AMPS if i % 7 == 0 else AMPS[i % 4: i % 4 + 1]):
                e = energies(p)
                m = make(name, p, aunit)
                got = observe(m, np.array(e) * u.eV)
                ck.step()
                check_values(name, p, e, got, aunit, "array")
                ck.state((name, i, aunit))
                if not isinstance(got, Raised):
                    ck.outcome("%.9e" % float(np.ravel(u.Quantity(got).value)[5]))
                # raw function: the documented formula as well
                if aunit == "":
                    r = m.eval(np.array(e), *[(ev(v) if isinstance(v, tuple) else v) for v in p.values()])
                    ck.step()
                    check_values(name, p, e, r, "", "eval")
                # continuity at the break
                if "e_break" in p:
                    b = ev(p["e_break"])
                    f = u.Quantity(m(np.array([b * (1 - 1e-10), b, b * (1 + 1e-10)]) * u.eV)).value
                    ck.step()
                    if not np.allclose(f, f[1], rtol=1e-7, atol=1e-300):
                        raise Violation("jump at the break: %s" % f)

        ck.case("closed:%s:%d" % (name, i), go)

    items = [(n, i, p) for n in MODELS for i, p in enumerate(grid(n))]
    ck.sample((items[0][0], items[0][2]))
    ck.parallel(closed, items)

    # containers, units, shapes
    CONT = {
        "array": lambda x: x,
        "dict": lambda x: {"energy": x},
        "table": lambda x: Table({"energy": x, "y": np.zeros(len(x))}),
        "qtable": lambda x: QTable({"energy": x}),
        "list": lambda x: list(x),
    }
    UNITS = ["eV", "keV", "MeV", "GeV", "TeV", "erg", "J"]

    def conv(ck, it):
        name, i, p, un, cont = it

        def go():
            e = energies(p)
            x = (np.array(e) * u.eV).to(un)
            # skip the float neighbours: a unit conversion rounds over the break (the model
            # is continuous there, so only the tolerance matters)
            m = make(name, p, "1/eV")
            got = observe(m, CONT[cont](x))
            ck.step()
            ck.state(it[:2] + it[3:])
            check_values(name, p, e, got, "1/eV", "%s in %s" % (cont, un), 1e-8)
            if cont == "array":
                for k in (0, 3, len(e) - 1):
                    g = observe(m, x[k])
                    ck.step()
                    if isinstance(g, Raised) or np.shape(g) != ():
                        raise Violation("scalar energy gives %r" % (g,))
                    check_values(name, p, [e[k]], u.Quantity([g]), "1/eV", "scalar in " + un, 1e-8)
                g = observe(m, np.array(x.value[:9]).reshape(3, 3) * x.unit)
                ck.step()
                if isinstance(g, Raised) or g.shape != (3, 3):
                    raise Violation("2-d energies: %r" % (g,))
                check_values(name, p, e[:9], g.ravel(), "1/eV", "2-d", 1e-8)
                g = observe(m, x[::-1])
                check_values(name, p, e[::-1], g, "1/eV", "reversed", 1e-8)
                ck.step()

        ck.case("conv:%s:%d:%s:%s" % (name, i, un, cont), go)

    items = []
    for n in MODELS:
        g = list(grid(n))
        for i in range(0, len(g), max(1, len(g) // (5 if ck.quick else 30))):
            for un, cont in itertools.product(UNITS, CONT):
                items.append((n, i, g[i], un, cont))
    ck.parallel(conv, items)

    # parameter-change words: evaluate, change, evaluate, ...
    def words(ck, it):
        name, w, memo = it

        def go():
            pars = MODELS[name][0]
            p = {k: domain(name, k)[0] for k in pars}
            m = make(name, p, "1/eV")
            if memo:
                m._memoize = True
                m._cache, m._queue = {}, []
            for k, v in ((None, None),) + w:
                if k is not None:
                    p = dict(p, **{k: v})
                    setattr(m, k, q(v) if isinstance(v, tuple) else (v / u.eV if k == "amplitude" else v))
                e = energies(p)
                got = observe(m, np.array(e) * u.eV)
                ck.step()
                check_values(name, p, e, got, "1/eV", "after %s" % (w,))
                # scalar then array: no memory of the previous request
                g = observe(m, e[2] * u.eV)
                ck.step()
                check_values(name, p, [e[2]], u.Quantity([g]), "1/eV", "scalar after %s" % (w,))
            ck.state((name, w, memo))

        ck.case("words:%s:%s:%d" % (name, "/".join("%s=%s" % (k, v) for k, v in w), memo), go)

    items = []
    for n in MODELS:
        sets = []
        for k in MODELS[n][0]:
            vals = [7.0, 3.5e-12] if k == "amplitude" else domain(n, k)[:2]
            if k in ("e_0", "e_cutoff", "e_break"):
                vals = list(vals) + [("GeV", vals[0][1] * UN[vals[0][0]] / 1e9)]  # same energy, other unit
            sets += [(k, v) for v in vals]
        for d in range(1, depth + 1):
            for w in itertools.product(sets, repeat=d):
                for memo in (0, 1):
                    items.append((n, w, memo))
    if not ck.quick:
        items = [x for x in items if len(x[1]) < 3 or x[2]]
    ck.parallel(words, items)

    # ---- tables -----------------------------------------------------------------------------
    SHAPES = {
        "pl": lambda x: 3.0 * x**-2.2,
        "flat": lambda x: 0 * x + 4.0,
        "lp": lambda x: 2.0 * x ** (-1.5 - 0.2 * np.log10(x)),
        "cub": lambda x: 10 ** (0.3 - np.log10(x) + 0.05 * np.log10(x) ** 3),
        "steep": lambda x: 1e-20 * x**-9.0,
    }
    NODES = {
        "dec": [1e-3, 1e-2, 0.1, 1.0, 10.0, 100.0],
        "odd": [0.07, 0.1234567, 0.77, 1.3, 8.1, 33.3, 913.7],
        "rev": [100.0, 10.0, 1.0, 0.1, 1e-2],
        "mix": [1.0, 0.1, 10.0, 0.3, 3.0],
        "four": [0.3, 0.7, 1.9, 5.3],
    }
    VU = ["1/eV", "erg/(cm2 s)", None, "list"]

    def table(ck, it):
        s, n, vu, eu, amp = it

        def go():
            x = np.array(NODES[n])
            y = SHAPES[s](x)
            en = (x * u.TeV).to(eu)
            vals = list(y) if vu == "list" else (y * u.Unit(vu) if vu else y)
            before = np.array(y, copy=True)
            m = M.TableModel(en, vals, **({} if amp is None else {"amplitude": amp}))
            a = 1.0 if amp is None else float(amp)
            unit = u.Unit(vu) if vu not in (None, "list") else u.dimensionless_unscaled

            def at(e, want, what, tol=1e-8):
                got = observe(m, e)
                ck.step()
                if isinstance(got, Raised):
                    raise Violation("%s: %r" % (what, got))
                if u.Quantity(got).unit != unit:
                    raise Violation("%s: unit %s instead of %s" % (what, u.Quantity(got).unit, unit))
                g = np.asarray(u.Quantity(got).value, float)
                w = np.asarray(want, float) * a
                if g.shape != w.shape:
                    raise Violation("%s: shape %s" % (what, g.shape))
                ok = np.abs(g - w) <= tol * np.abs(w)
                if not np.all(ok):
                    i = np.argmin(np.ravel(ok))
                    raise Violation("%s: %r instead of %r at %s" % (what, np.ravel(g)[i], np.ravel(w)[i], np.ravel(e)[i]))

            at(en, y, "nodes")
            for un in ("eV", "GeV", "erg"):
                at((x * u.TeV).to(un), y, "nodes in " + un)
            at(en[1], y[1], "one node")
            for i in range(len(x)):
                at(en[i].to("MeV"), y[i], "node alone")
            lo, hi = x.min(), x.max()
            mid = np.exp(np.linspace(np.log(lo), np.log(hi), 13)[1:-1])
            at(mid * u.TeV, SHAPES[s](mid), "between nodes", 1e-7)
            at(np.array([lo * (1 - 1e-6), lo / 3, 1e-12, hi * (1 + 1e-6), hi * 5, 1e12]) * u.TeV, np.zeros(6),
               "outside the table")
            at({"energy": mid * u.TeV}, SHAPES[s](mid), "dict", 1e-7)
            # amplitude changes
            for k in (0.0, 2.5, -1.0, 1e10):
                m.amplitude = k
                a = k
                at(en, y, "amplitude %g" % k)
            if not np.array_equal(np.asarray(u.Quantity(vals).value), before):
                raise Violation("values were modified")
            ck.state(it)

        ck.case("table:%s:%s:%s:%s:%s" % it, go)

    ck.parallel(table, itertools.product(SHAPES, NODES, VU, ("TeV", "eV", "erg", "GeV"), (None, 1, 3.0)))

    def tabzero():
        x = np.array(NODES["dec"])
        y = np.array([1.0, 0.5, 0.2, 0.0, 0.1, 0.05])
        got = M.TableModel(x * u.TeV, y)(x * u.TeV)
        ck.step()
        if not np.allclose(u.Quantity(got).value, y):
            raise Violation("a table with a zero value gives %s" % (got,))

    ck.case("table-zero", tabzero)
    ck.assumptions = ["tables of shapes a cubic interpolation in log-log space reproduces exactly"]
