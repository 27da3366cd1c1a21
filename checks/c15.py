"""C15: unusable input is rejected with an error instead of producing numbers."""
TECHNIQUE = ("exhaustive enumeration of single defects injected into every accepted table format, list position, model "
             "parameter, call argument and fit configuration of the real code, each followed by a use of the same objects")
NOTE = ("Every required column removed / given each of 10 wrong physical types or no unit, in every format and at every list "
        "position; every model class x every parameter x wrong type/sign at construction and by assignment; every pair of "
        "incompatible model output and data family in get_sampler with/without guess and prefit; every element of 7 kinds of seed photon field spoilt, alone and beside every other field.")

import itertools

import numpy as np
from astropy import units as u
from astropy.table import Column, QTable, Table

from mc import env  # noqa
from mc import tables as T
from mc.common import Raised
from mc.harness import Violation
from mc.lik import make_sampler, quiet
from naima import models as M
from naima import radiative as R
from naima.core import get_sampler
from naima.utils import build_data_table, estimate_B, validate_data_table
from .c13 import base_rows

FAMS = ("df", "sf", "dp", "sp")
WRONG = ["", "m", "s", "K", "cm2", "1/s", "G", "1/cm3", "1/(cm2 s)", "eV/cm3"]
OKERR = (TypeError, ValueError, u.UnitsError)


def rejected(ck, what, fn, any_error=False, unchanged=()):
    """fn() raises; none of the objects in `unchanged` (value, snapshot function) is modified."""
    before = [s(o) for o, s in unchanged]
    ck.step()
    try:
        r = fn()
    except OKERR as e:
        ck.outcome(type(e).__name__)
    except Exception as e:  # noqa
        if not any_error:
            raise Violation("%s: raised %s(%s) instead of a TypeError, ValueError or units error" % (what, type(e).__name__, e))
        ck.outcome(type(e).__name__)
    else:
        raise Violation("%s: accepted, result %s" % (what, repr(r)[:200]))
    for (o, s), b in zip(unchanged, before):
        if s(o) != b:
            raise Violation("%s: rejected, but the caller's object was modified" % what)


def with_column(t, col, values=None, unit=None, drop=False):
    """Copy of t with one column replaced or removed, meta kept."""
    out = t.copy()
    v = np.asarray(getattr(t[col], "value", t[col]))
    i = out.colnames.index(col)
    out.remove_column(col)
    if not drop:
        v = v if values is None else values
        if isinstance(out, QTable) and unit is not None:
            out.add_column(u.Quantity(v, unit), name=col, index=i)
        else:
            out.add_column(Column(v, unit=unit, name=col), index=i)
    return out


def table_rejects(ck):
    good = T.write(base_rows("df"), "df")[0]

    def one(ck, it):
        fam, ferr, efmt, cls, ful = it
        key = "table:%s:%s:%s:%s:%s" % (fam, ferr, efmt, cls.__name__, ful)

        def go():
            t = T.write(base_rows(fam), fam, ferr, efmt, "bool", ful, 0.95, cls)[0]
            bads = []
            req = ["energy", "flux"] + [c for c in t.colnames if c.startswith("flux_error")]
            for c in req:
                bads.append(("no " + c, with_column(t, c, drop=True)))
            for c in t.colnames:
                if c in ("ul", "group", "flux_ul"):
                    continue
                isen = c.startswith("energy")
                other = ["1/(cm2 s TeV)", "erg/(cm2 s)", "erg/s", "1/(TeV s)"] if isen else ["TeV", "erg", "1/TeV"]
                for un in WRONG + other:
                    bads.append(("%s in %s" % (c, un or "no unit"), with_column(t, c, unit=u.Unit(un))))
                bads.append(("%s without unit" % c, with_column(t, c, unit=None)))
                bads.append(("%s of strings" % c, with_column(t, c, values=np.array(["a"] * len(t)), unit=None)))
                bads.append(("%s 2-d" % c, with_column(t, c, values=np.ones((len(t), 2)), unit=t[c].unit)))
            if ful:
                # limits of another physical type
                for un in ("", "m", "TeV", "1/TeV") + tuple(str(T.CANON[f]) for f in FAMS if f != fam):
                    bads.append(("flux_ul in %s" % un, with_column(t, "flux_ul", unit=u.Unit(un))))
            for name, vals in (("float", np.array([0.0, 1.0, 0.0, 1.0])), ("yes", np.array(["yes", "no", "yes", "no"])),
                               ("mixed", np.array(["True", "False", "True", "true"])), ("empty", np.array(["", "True", "True", "True"])),
                               ("complex", np.array([0j, 1, 0, 1])), ("object", np.array([True, None, False, 1], dtype=object)),
                               ("bytes", np.array([b"True", b"False", b"True", b"False"]))):
                bads.append(("ul " + name, with_column(t, "ul", values=vals)))
            for cl in ("test", None, [0.9, 0.95], "0.9", np.array([0.9] * 4)):
                x = t.copy()
                x.meta["keywords"] = {"cl": {"value": cl}}
                bads.append(("cl %r" % (cl,), x))
            for name, b in bads:
                ck.state((it, name))
                for sed in (None, True, False):
                    for pos, arg in (("alone", b), ("first", [b, good]), ("last", [good, b])):
                        if ck.quick and pos != "alone" and sed is not None:
                            continue
                        rejected(ck, "table with %s (%s)" % (name, pos), lambda: validate_data_table(arg, sed=sed),
                                 unchanged=[(b, T.snap), (good, T.snap)])
            # the good tables are still usable
            validate_data_table([t, t])
            validate_data_table(good)

        ck.case(key, go)

    items = [(f, fe, ef, cls, ful) for f in FAMS for fe in T.FERR for ef in T.EFMT for cls in (Table, QTable)
             for ful in (False, True)]
    if ck.quick:
        items = [x for i, x in enumerate(items) if x[0] in ("df", "sp") or x[4]]
    ck.parallel(one, items)


def list_rejects(ck):
    tabs = {f: T.write(base_rows(f), f, "asym", "edges", "bool", False, 0.95, QTable)[0] for f in FAMS}
    junk = {"dict": {"energy": [1] * u.TeV}, "none": None, "array": np.ones(4), "str": "table.dat", "int": 3, "list": [],
            "quantity": [1, 2] * u.TeV, "row": tabs["df"][0]}

    def one(ck, it):
        kinds, sed = it
        key = "list:%s:%s" % ("-".join(kinds), sed)

        def go():
            arg = [junk.get(k, tabs.get(k)) for k in kinds]
            ck.state(it)
            fams = set(k[1] for k in kinds if k in tabs)
            ok = all(k in tabs for k in kinds) and len(fams) == 1
            snaps = [(tabs[k], T.snap) for k in kinds if k in tabs]
            if ok:
                validate_data_table(arg, sed=sed)
                ck.step()
            else:
                rejected(ck, "validate_data_table(list of %s)" % (kinds,), lambda: validate_data_table(arg, sed=sed),
                         unchanged=snaps)

        ck.case(key, go)

    items = [(k, s) for n in (1, 2, 3) for k in itertools.product(FAMS, repeat=n) for s in (None, True, False)]
    items += [(k, None) for k in itertools.product(list(FAMS) + list(junk), repeat=2) if any(x in junk for x in k)]
    items += [((j,), s) for j in junk for s in (None, True)]
    ck.parallel(one, items)
    for name, j in junk.items():
        if name == "list":
            continue
        ck.case("alone:" + name, rejected, ck, "validate_data_table(%s)" % name, lambda: validate_data_table(j))


def spectrum_of(m):
    """Values of a model at a few energies."""
    e = [0.1, 1, 10] * u.TeV
    if isinstance(m, M.EblAbsorptionModel):
        return m.transmission(e)
    if isinstance(m, R.BaseRadiative):
        return m.flux(e, distance=1 * u.kpc)
    return m(e)


TEV = u.TeV


def pdist(unit="1/eV"):
    return M.ExponentialCutoffPowerLaw(1e36 * u.Unit(unit), 1 * TEV, 2.1, 13 * TEV)


LIGHT = dict(nEed=10, Eemin=100 * u.GeV, Eemax=50 * TEV)
LIGHTP = dict(nEpd=10, Epmin=10 * u.GeV, Epmax=50 * TEV, useLUT=False)


def catalogue():
    A = 1e36 / u.eV
    en = {"amplitude": A, "e_0": 1 * TEV, "alpha": 2.0}
    f = {
        "PowerLaw": (M.PowerLaw, en),
        "ExponentialCutoffPowerLaw": (M.ExponentialCutoffPowerLaw, dict(en, e_cutoff=3 * TEV, beta=1.2)),
        "BrokenPowerLaw": (M.BrokenPowerLaw, {"amplitude": A, "e_0": 1 * TEV, "e_break": 2 * TEV, "alpha_1": 1.5, "alpha_2": 2.5}),
        "ExponentialCutoffBrokenPowerLaw": (M.ExponentialCutoffBrokenPowerLaw,
                                            {"amplitude": A, "e_0": 1 * TEV, "e_break": 2 * TEV, "alpha_1": 1.5,
                                             "alpha_2": 2.5, "e_cutoff": 20 * TEV, "beta": 1.0}),
        "LogParabola": (M.LogParabola, {"amplitude": A, "e_0": 1 * TEV, "alpha": 2.0, "beta": 0.1}),
        "EblAbsorptionModel": (M.EblAbsorptionModel, {"redshift": 0.5, "ebl_absorption_model": "Dominguez"}),
        "TableModel": (M.TableModel, {"energy": np.logspace(-2, 2, 6) * TEV, "values": np.logspace(40, 30, 6) / TEV, "amplitude": 1.0}),
        "Synchrotron": (R.Synchrotron, dict(LIGHT, particle_distribution=pdist(), B=1e-4 * u.G)),
        "InverseCompton": (R.InverseCompton, dict(LIGHT, particle_distribution=pdist(), seed_photon_fields=["CMB"])),
        "Bremsstrahlung": (R.Bremsstrahlung, dict(LIGHT, particle_distribution=pdist(), n0=1 / u.cm**3)),
        "PionDecay": (R.PionDecay, dict(LIGHTP, particle_distribution=pdist(), nh=1 / u.cm**3)),
        "PionDecayKelner06": (R.PionDecayKelner06, dict(particle_distribution=pdist(), nh=1 / u.cm**3, Etrans=0.1 * TEV)),
    }
    return f


NOTQ = [3.0, 1, "1 TeV", None, [1.0, 2.0]]
QE = [1 * u.m, 2 * u.s, 3 * u.K, 1 * u.dimensionless_unscaled, 1 * u.Hz]
PARAM_BAD = {
    # parameter: (values that must be refused at construction)
    "e_0": NOTQ + QE + [-1 * TEV],
    "e_break": NOTQ + QE + [-1 * TEV],
    "e_cutoff": NOTQ + QE + [-1 * TEV],
    "Etrans": NOTQ + QE + [-1 * TEV],
    "B": NOTQ + QE + [1 * TEV],
    "nh": NOTQ + QE + [1 * TEV, 1 * u.g / u.cm**3],
    "redshift": [-0.1, -1e-9, 1 * u.m, 0.5 * TEV, "0.5", None, -0.5 * u.dimensionless_unscaled],
    "ebl_absorption_model": ["dominguez", "Finke", None, 3],
    "energy": [3.0, np.logspace(-2, 2, 6), np.logspace(-2, 2, 6) * u.m, np.ones((2, 3)) * TEV, 1 * TEV, None,
               -np.logspace(2, -2, 6) * TEV] + [np.where(np.arange(6) == k, -1, 1) * np.logspace(-2, 2, 6) * TEV for k in range(6)]
              + [np.where(np.arange(6) == k, -1e-3, np.logspace(-2, 2, 6)) * TEV for k in (0, 3, 5)],
    "particle_distribution": [None, 3.0, pdist("1/(eV cm2)"), pdist("eV"), pdist("1/(eV cm3)"), pdist("1/(s eV)"), pdist("1/m"),
                              lambda e: np.ones(e.shape), lambda e: np.ones(e.shape) * u.eV, 1 / TEV],
}
# assigned after construction: quantities of another physical type make the evaluation fail
ASSIGN_BAD = {
    "e_0": QE, "e_break": QE, "e_cutoff": QE, "Etrans": QE, "B": QE + [1 * TEV], "nh": QE + [1 * TEV], "n0": QE + [1 * TEV],
    "Eemin": QE, "Eemax": QE, "Epmin": QE, "Epmax": QE, "particle_distribution": [pdist("1/(eV cm2)"), pdist("1/(s eV)"), pdist("eV")],
}


def domains(ck):
    """The helpers every constructor uses, on every pattern of signs."""
    from naima.extern.validator import validate_array, validate_scalar
    UN = [None, u.TeV, u.eV]

    def arrays(n):
        for w in itertools.product((-2.0, -1e-12, 0.0, 1e-12, 3.0), repeat=n):
            v = np.array(w)
            for un in UN:
                q = v if un is None else v * un
                pt = None if un is None else "energy"
                ck.state(("array", w, str(un)))
                if min(w) < 0:
                    rejected(ck, "array %s" % (q,), lambda: validate_array("x", q, domain="positive", physical_type=pt))
                else:
                    got = validate_array("x", q, domain="positive", physical_type=pt)
                    ck.step()
                    if not np.array_equal(got, q):
                        raise Violation("array %s became %s" % (q, got))
                got = validate_array("x", q, physical_type=pt)
                if not np.array_equal(got, q):
                    raise Violation("array %s without domain became %s" % (q, got))
                for bad in ({"ndim": 2}, {"shape": (n + 1,)}, {"physical_type": "length"}, {"physical_type": "flux"}):
                    kw = dict(physical_type=pt)
                    kw.update(bad)
                    rejected(ck, "array %s with %s" % (q, bad), lambda: validate_array("x", q, **kw))

    def scalars(dom):
        lo_hi = isinstance(dom, tuple)
        for v in (-2.0, -1e-12, 0.0, 1e-12, 0.5, 1.0, 3.0, -1, 0, 1):
            ok = (dom is None or (dom == "positive" and v >= 0) or (dom == "strictly-positive" and v > 0)
                  or (dom == "negative" and v <= 0) or (dom == "strictly-negative" and v < 0)
                  or (lo_hi and dom[0] <= v <= dom[1]))
            forms = [v, np.float64(v), v * u.dimensionless_unscaled]
            if not lo_hi:
                forms += [v * u.TeV, v * u.m]
            for q in forms:
                pt = q.unit.physical_type if isinstance(q, u.Quantity) else None
                ck.state(("scalar", str(dom), repr(q)))
                if ok:
                    ck.step()
                    if validate_scalar("x", q, domain=dom, physical_type=pt) != q:
                        raise Violation("%r changed" % (q,))
                else:
                    rejected(ck, "%r in domain %s" % (q, dom), lambda: validate_scalar("x", q, domain=dom, physical_type=pt))
                rejected(ck, "%r as a time" % (q,), lambda: validate_scalar("x", q, physical_type="time"))
        for q in ("a", None, [1, 2], np.array([1.0, 2.0]), [1, 2] * u.TeV, 1j):
            rejected(ck, "%r as scalar" % (q,), lambda: validate_scalar("x", q, domain=dom))

    for n in (1, 2, 3):
        ck.case("domain:arrays:%d" % n, arrays, n)
    for dom in (None, "positive", "strictly-positive", "negative", "strictly-negative", (0, 1), (-2.0, 0.5)):
        ck.case("domain:scalars:%s" % (dom,), scalars, dom)


def params(ck):
    cat = catalogue()

    def construct(name, p, i):
        cls, kw = cat[name]
        bad = dict(kw)
        bad[p] = PARAM_BAD[p][i]
        ck.state((name, p, i))
        rejected(ck, "%s(%s=%r)" % (name, p, bad[p]), lambda: spectrum_of(cls(**bad)),
                 any_error=p == "particle_distribution")
        # the same arguments with a good value still work
        v = spectrum_of(cls(**kw))
        if not np.all(np.isfinite(u.Quantity(v).value)):
            raise Violation("%s gives %r" % (name, v))

    def assign(name, p, i):
        cls, kw = cat[name]
        m = cls(**kw)
        ck.state((name, p, "assign", i))
        old = getattr(m, p, None)
        if old is None:
            return
        want = spectrum_of(m)
        setattr(m, p, ASSIGN_BAD[p][i])
        rejected(ck, "%s with %s = %r" % (name, p, ASSIGN_BAD[p][i]), lambda: spectrum_of(m), any_error=True)
        setattr(m, p, old)
        got = spectrum_of(m)
        ck.step(2)
        if not np.array_equal(u.Quantity(got).value, u.Quantity(want).value):
            raise Violation("%s differs after a rejected %s" % (name, p))

    for name, (cls, kw) in cat.items():
        for p in kw:
            if p in PARAM_BAD:
                for i in range(len(PARAM_BAD[p])):
                    ck.case("construct:%s:%s:%d" % (name, p, i), construct, name, p, i)
        for p in ASSIGN_BAD:
            if p in kw:
                for i in range(len(ASSIGN_BAD[p])):
                    ck.case("assign:%s:%s:%d" % (name, p, i), assign, name, p, i)

    # call arguments
    badE = {"float": 3.0, "array": np.array([1.0, 2.0]), "m": [1, 2] * u.m, "s": 1 * u.s, "Hz": [1] * u.Hz, "dict": {"ene": [1] * TEV},
            "dictm": {"energy": [1] * u.m}, "dictf": {"energy": [1.0]}, "table": Table({"e": [1.0]}), "str": "1 m", "none": None,
            "dict2d": {"energy": np.ones((2, 2)) * TEV}}
    badD = {"float": 3.0, "s": 1 * u.s, "TeV": 1 * TEV, "none": None, "str": "1 kpc"}

    def call(name, what, k, meth):
        cls, kw = cat[name]
        m = cls(**kw)
        ck.state((name, what, k, meth))
        want = spectrum_of(m)
        f = m if meth == "call" else getattr(m, meth)
        if what == "energy":
            fn = (lambda: f(badE[k]))
        else:
            fn = (lambda: f([1.0, 2.0] * TEV, distance=badD[k]))
        # a mapping without energies may also be refused with a KeyError
        rejected(ck, "%s.%s(%s=%s)" % (name, meth, what, k), fn, any_error=k in ("dict", "table"))
        got = spectrum_of(m)
        ck.step()
        if not np.array_equal(u.Quantity(got).value, u.Quantity(want).value):
            raise Violation("%s differs after a rejected call" % name)

    for name, (cls, kw) in cat.items():
        rad = issubclass(cls, R.BaseRadiative)
        meths = ("flux", "sed") if rad else ("transmission", "call") if name.startswith("Ebl") else ("call",)
        for meth in meths:
            for k in badE:
                ck.case("call:%s:%s:energy:%s" % (name, meth, k), call, name, "energy", k, meth)
            if rad:
                for k in badD:
                    ck.case("call:%s:%s:distance:%s" % (name, meth, k), call, name, "distance", k, meth)

    # normalisation
    def norm(name, k, v):
        cls, kw = cat[name]
        m = cls(**dict(kw, particle_distribution=pdist()))
        f = m.set_We if hasattr(m, "set_We") else m.set_Wp
        a = m.particle_distribution.amplitude
        ck.state((name, "set", k))
        rejected(ck, "%s.set_W(%r)" % (name, v), lambda: f(v))
        if m.particle_distribution.amplitude != a:
            raise Violation("a rejected set_W changed the amplitude")

    for name in ("Synchrotron", "InverseCompton", "Bremsstrahlung", "PionDecay"):
        for k, v in (("float", 1e48), ("unit", 1e48 * u.m), ("power", 1 * u.erg / u.s), ("none", None)):
            ck.case("set:%s:%s" % (name, k), norm, name, k, v)


EVC = u.eV / u.cm**3
PHE = np.array([1e-3, 1e-2, 0.1])
GOOD_FIELDS = {
    "CMB": "CMB",
    "iso": ["iso", 30 * u.K, 1 * EVC],
    "ani": ["ani", 300 * u.K, 0.5 * EVC, 2.0 * u.rad],
    "planck0": ["bb", 10 * u.K, 0],
    "line": ["line", 1 * u.eV, 1 * EVC],
    "arr": ["arr", PHE * u.eV, np.array([1.0, 2.0, 0.5]) / (u.eV * u.cm**3)],
    "arrp": ["arrp", PHE * u.eV, np.array([1.0, 2.0, 0.5]) * EVC],
    "aniarr": ["aniarr", PHE * u.eV, np.array([1.0, 2.0, 0.5]) * EVC, 60 * u.deg],
}
NOTANGLE = [120, 2.0, np.float64(1.5), np.array([0.5, 1.0]), [0.5, 1.0], "90 deg", None, 1 * u.m, 1 * TEV, 2 * u.K, 3 * u.s,
            u.Quantity(0.5), 0.5 * u.Unit("rad/s"), 1 * EVC]
NOTU = [1.0, np.array([1.0, 2.0]), "1 eV/cm3", None, 1 * u.eV, 1 / u.cm**3, 1 * u.K, 1 * u.rad, -1 * EVC, -1e-30 * u.erg / u.m**3,
        [1.0, 2.0] * EVC]
NOTT = [30.0, "30 K", None, -30 * u.K, -1e-9 * u.K, 30 * u.s, 1 * u.m, 1 * u.rad, 1 / u.eV, [30.0, 40.0] * u.K]
NOTE_ = [PHE, -PHE * u.eV, PHE * u.m, PHE * np.array([1, 1, -1]) * u.eV, PHE.reshape(1, 3)[:, :2] * u.eV, PHE * u.s]
NOTD = [np.ones(3), np.ones(3) * u.eV, np.ones(3) / u.cm**3, np.ones(2) * EVC, np.ones(4) / (u.eV * u.cm**3), -np.ones(3) * EVC,
        np.array([1, -1e-9, 1]) / (u.eV * u.cm**3), np.ones(3) / u.eV, 1 * EVC]
FIELD_BAD = {"iso": {1: NOTT, 2: NOTU}, "ani": {1: NOTT, 2: NOTU, 3: NOTANGLE}, "planck0": {1: NOTT},
             "line": {1: [-1 * u.eV, 1 * u.m, 1.0], 2: NOTU}, "arr": {1: NOTE_, 2: NOTD}, "arrp": {1: NOTE_, 2: NOTD},
             "aniarr": {1: NOTE_, 2: NOTD, 3: NOTANGLE}}
SHAPES = ["cmb", "XRAY", "CMB-XRAY", "CMB-", "", ["cmb"], [["a"]], [["a", 3 * u.K]], [["a", 3 * u.K, 1 * EVC, 1 * u.rad, 2]], [3.0], [None],
          [("a", 3 * u.K, 1 * EVC)], None, 3.0, ["CMB", 3 * u.K, 1 * EVC]]


def photons(ck):
    """Seed photon fields: one element of one field spoilt, every other field alone, before or after it."""
    def make(fields):
        return R.InverseCompton(pdist(), seed_photon_fields=fields, **LIGHT)

    def copy(f):
        return list(f) if isinstance(f, list) else f

    def spoil(name, pos, i):
        bad = copy(GOOD_FIELDS[name])
        bad[pos] = FIELD_BAD[name][pos][i]
        lists = [[bad]] + [[copy(g), bad] for g in GOOD_FIELDS.values()] + [[bad, copy(g)] for g in GOOD_FIELDS.values()]
        for fields in lists:
            ck.state((name, pos, i, tuple(map(str, fields))))
            rejected(ck, "seed_photon_fields=%s" % (fields,), lambda: spectrum_of(make(fields)), any_error=True)
            n = len(fields)
            for f, g in zip(fields, [bad] * n):
                if f is bad and (len(bad) != len(GOOD_FIELDS[name]) or bad[0] != GOOD_FIELDS[name][0]):
                    raise Violation("a rejected field was changed: %s" % (bad,))
        v = spectrum_of(make([copy(GOOD_FIELDS[name])]))
        if not np.all(np.isfinite(u.Quantity(v).value)):
            raise Violation("%s gives %r" % (name, v))

    def shape(i):
        ck.state(("shape", i))
        rejected(ck, "seed_photon_fields=%r" % (SHAPES[i],), lambda: spectrum_of(make(SHAPES[i])), any_error=True)

    for name in FIELD_BAD:
        for pos in FIELD_BAD[name]:
            for i in range(len(FIELD_BAD[name][pos])):
                ck.case("field:%s:%d:%d" % (name, pos, i), spoil, name, pos, i)
    for i in range(len(SHAPES)):
        ck.case("fields:%d" % i, shape, i)


def fits(ck):
    e = np.array([0.5, 1.0, 3.0, 10.0])
    model_units = {"df": "1/(cm2 s TeV)", "sf": "erg/(cm2 s)", "dp": "1/(s TeV)", "sp": "erg/s", "pd": "1/TeV", "pe": "erg",
                   "num": "1/(TeV cm3)", "m": "m", "none": "", "pf": "1/(cm2 s)"}

    def one(fam, mu, wrap, guess, prefit, nburn, p0kind):
        t = T.write(base_rows(fam), fam, "asym", "edges", "bool", False, 0.95, QTable)[0]

        def model(p, data):
            x = data["energy"].to("TeV").value
            y = p[0] * x ** -p[1]
            if mu != "bare":
                y = y * u.Unit(model_units[mu])
            return {"bare": y, "tuple": (y, 1 * u.erg), "list": [y, 1.0]}[wrap]

        p0 = {"array": np.array([1.0, 2.0]), "list": [1.0, 2.0]}[p0kind]
        labels = ["norm", "index"]
        ck.state((fam, mu, wrap, guess, prefit, nburn, p0kind))
        comparable = mu[0] in "ds" and mu[1] == fam[1] and len(mu) == 2

        def go():
            s, pos = make_sampler(t, model, p0, guess=guess, prefit=prefit, nburn=nburn, labels=labels)
            with quiet():
                return s.compute_log_prob(np.array([[1.0, 2.0]] * 4))[0]

        if comparable:
            go()
            ck.step()
        else:
            rejected(ck, "model in %s for data in %s" % (mu, fam), go, any_error=mu in ("bare",),
                     unchanged=[(t, T.snap), (p0, repr), (labels, repr)])

    for fam in FAMS:
        for mu in list(model_units) + ["bare"]:
            for wrap in ("bare", "tuple", "list"):
                for guess in (False, True):
                    for prefit in (False, True):
                        for nburn in (0, 1):
                            for p0kind in ("array", "list"):
                                if mu[0] in "ds" and len(mu) == 2 and mu[1] == fam[1] and (prefit or nburn):
                                    continue
                                ck.case("fit:%s:%s:%s:%s:%s:%s:%s" % (fam, mu, wrap, guess, prefit, nburn, p0kind), one,
                                        fam, mu, wrap, guess, prefit, nburn, p0kind)

    good = T.write(base_rows("df"), "df")[0]

    def mdl(p, data):
        return p[0] * 1e-12 * data["energy"].to("TeV").value ** -2 * u.Unit("1/(cm2 s TeV)")

    for k, kw in (("no data", dict(p0=[1.0], model=mdl)), ("no model", dict(p0=[1.0], data_table=good)),
                  ("dict data", dict(p0=[1.0], model=mdl, data_table={"energy": [1] * TEV})),
                  ("bad list", dict(p0=[1.0], model=mdl, data_table=[good, None]))):
        def go(kw=kw):
            with quiet():
                return get_sampler(nwalkers=4, nburn=0, threads=1, **kw)

        ck.case("args:" + k.replace(" ", ""), rejected, ck, "get_sampler with " + k, go)


def tools(ck):
    e = [1.0, 2.0, 4.0] * TEV
    f = [3.0, 2.0, 1.0] * u.Unit("1/(cm2 s TeV)")
    good = dict(energy=e, flux=f, flux_error=0.1 * f, ul=[0, 0, 1], cl=0.9)
    bad = {"energy": [e.value, e.value * u.m, f, [1, 2] * TEV], "flux": [f.value, f.value * u.m, e, f.value / u.cm**2 / u.s],
           "flux_error": [None, e, f.value, f.value * u.m], "cl": ["x", [0.9, 0.9], np.ones(3)]}

    def build(k, i):
        kw = dict(good)
        kw[k] = bad[k][i]
        ck.state(("build", k, i))
        rejected(ck, "build_data_table(%s=%r)" % (k, kw[k]), lambda: build_data_table(**kw))
        build_data_table(**good)

    for k in bad:
        for i in range(len(bad[k])):
            ck.case("build:%s:%d" % (k, i), build, k, i)
    for k in ("lo", "hi"):
        kw = dict(good, flux_error=None)
        kw["flux_error_" + k] = 0.1 * f
        ck.case("build:only-" + k, rejected, ck, "build_data_table with only flux_error_%s" % k, lambda: build_data_table(**kw))

    t = build_data_table(**good)

    def est(k, x, v, ph):
        ck.state(("estimate_B", k))
        rejected(ck, "estimate_B " + k, lambda: estimate_B(x, v, **({} if ph is None else {"photon_energy_density": ph})),
                 any_error=k == "density3")

    lum = T.write(base_rows("dp"), "dp")[0]
    for k, x, v, ph in (("no table", None, t, None), ("no table2", t, None, None), ("array", np.ones(3), t, None),
                        ("density", t, t, 1 * u.eV), ("density2", t, t, 1 / u.cm**3), ("density3", t, t, 0.261), ("lum", t, lum, None),
                        ("lum2", lum, t, None)):
        ck.case("estimate:" + k.replace(" ", ""), est, k, x, v, ph)


def run(ck):
    ck.bounds = dict(defects_per_input=1)
    table_rejects(ck)
    list_rejects(ck)
    params(ck)
    domains(ck)
    photons(ck)
    fits(ck)
    tools(ck)
