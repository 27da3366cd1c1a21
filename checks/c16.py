"""C16: differential and SED representations convert without loss."""
TECHNIQUE = ("exhaustive enumeration of unit x energy unit x representation words on the real sed_conversion; oracle = "
             "energy squared computed in plain eV/s/cm2 numbers")
NOTE = ("All units of 6 families built from 5 energy, 4 area and 3 time units, 6 energy units, 5 energy containers, all words "
        "of up to 4 (thorough 6) conversions; 25 unsupported physical types; prefixes, equivalent spellings and scaled units; all words of up to 3 contents of the caller's own energies, changed in place or built anew; all words of up to 3 of 9 energies over 49 decades, and up to 2700 at once.")

import itertools

import numpy as np
from astropy import units as u
from astropy.table import QTable

from mc import env  # noqa
from mc.harness import Violation
from mc.common import Raised, observe
from mc import history
from naima.utils import sed_conversion, validate_data_table

EN = [u.eV, u.keV, u.erg, u.J, u.TeV, u.MeV]
AREA = [u.cm**2, u.m**2, u.km**2, u.barn]
TIME = [u.s, u.yr, u.h]
FAM = {
    # family: (canonical differential unit, canonical SED unit)
    "flux": (u.Unit("1/(eV cm2 s)"), u.Unit("eV/(cm2 s)")),
    "lum": (u.Unit("1/(eV s)"), u.Unit("eV/s")),
    "part": (u.Unit("1/eV"), u.eV),
}
BAD = ["", "m", "cm2", "s", "K", "cm", "1/cm3", "1/(cm2 s)", "1/s", "eV/cm3", "eV/(cm2 s sr)", "1/(eV cm2 s sr)", "G", "kg",
       "eV2", "eV2/(cm2 s)", "1/(eV2 cm2 s)", "1/eV2", "eV s", "Jy", "rad", "erg/(cm2 s Hz)", "erg/(cm2 s AA)", "1/(eV cm2)",
       "eV/cm2", "1/(eV cm2 s2)", "ph/(cm2 s)", "1/(eV cm3)"]


def units(fam, diff):
    out = []
    for e in EN:
        for t in TIME if fam != "part" else [None]:
            for a in AREA if fam == "flux" else [None]:
                x = (1 / e) if diff else e
                if t is not None:
                    x = x / t
                if a is not None:
                    x = x / a
                out.append(u.Unit(x))
    # energies written as products of other units, and areas and times written as powers of others
    for e in ("W s", "N m", "kg m2 / s2", "Pa m3", "V A s", "solLum yr", "g cm2 / s2", "V C", "T A m2"):
        e = u.Unit(e)
        x = (1 / e) if diff else e
        for w in ({"flux": ("1/(cm2 s)", "Hz/m2", "1/(barn h)", "km / (s m3)", "Bq/cm2"), "lum": ("1/s", "Hz", "1/yr", "Bq")}.get(fam, ("",))):
            out.append(u.Unit(x * u.Unit(w)))
    if not diff:
        out += {"flux": [u.Unit("W/m2"), u.Unit("Jy Hz"), u.Unit("1e-12 erg/(cm2 s)"), u.Unit("mW/cm2")],
                "lum": [u.W, u.kW, u.solLum, u.Unit("1e33 erg/s")], "part": [u.Unit("N m"), u.Unit("kW h")]}[fam]
    else:
        out += {"flux": [u.Unit("1e-11 TeV-1 cm-2 s-1"), u.Unit("1/(N m3 s)")], "lum": [u.Unit("1/(N m s)")],
                "part": [u.Unit("1/(N m)"), u.Unit("1e50 / eV")]}[fam]
    return out


VALS = np.array([3.0, 0.7, 1.9e-3, 4.0e5, 0.0, -2.5])
EVALS = np.array([1e3, 2.6e6, 1e9, 3e11, 5e13, 7e14])


def run(ck):
    depth = 4 if ck.quick else 6
    ck.bounds = dict(word_length=depth, families=list(FAM))

    def one(ck, it):
        fam, diff, unit, eu = it
        key = "conv:%s:%s:%s:%s" % (fam, "diff" if diff else "sed", unit, eu)

        def go():
            can = FAM[fam]
            e0 = (EVALS * u.eV).to(eu)
            conts = [("array", e0, VALS * unit), ("scalar", e0[3], VALS[0] * unit), ("one", e0[:1], VALS[:1] * unit),
                     ("2d", e0.reshape(2, 3), VALS.reshape(2, 3) * unit), ("table", QTable({"energy": e0})["energy"], VALS * unit)]
            for cname, e, val in conts:
                ev = e.to(u.eV).value
                phys = val.to(can[0 if diff else 1]).value * (ev**2 if diff else 1.0)  # SED in canonical units
                words = [w for d in range(1, depth + 1) for w in itertools.product((True, False), repeat=d)]
                if cname != "array":
                    words = [w for w in words if len(w) <= 2]
                for w in words:
                    cur = val
                    for sed in w:
                        eb = e.copy()
                        fu, sf = sed_conversion(e, cur.unit, sed)
                        cur = (cur * sf).to(fu)
                        ck.step()
                        if not (np.all(e == eb) and e.unit == eb.unit):
                            raise Violation("%s %s: the energies were modified" % (cname, w))
                    ck.state((it, cname, w))
                    want = phys / (1.0 if w[-1] else ev**2)
                    try:
                        got = cur.to(can[1 if w[-1] else 0]).value
                    except u.UnitsError:
                        raise Violation("%s %s: result in %s, not a %s of a %s" % (cname, w, cur.unit,
                                        "SED" if w[-1] else "spectrum", fam))
                    if np.shape(got) != np.shape(want) or not np.allclose(got, want, rtol=1e-11, atol=0):
                        raise Violation("%s %s: %r instead of %r" % (cname, w, got, want))
                    ck.outcome(["%.9e" % x for x in np.ravel(got)])

        ck.case(key, go)

    items = [(f, d, un, eu) for f in FAM for d in (True, False) for un in units(f, d)
             for eu in (EN if (not ck.quick or f != "flux" or not d) else EN[:1] + EN[2:3] + EN[4:5])]
    ck.parallel(one, items)

    def bad(unit, sed, eu):
        e = (EVALS * u.eV).to(eu)
        val = VALS * u.Unit(unit)

        def go():
            fu, sf = sed_conversion(e, val.unit, sed)
            return (val * sf).to(fu)

        r = observe(go)
        ck.state((unit, sed, eu))
        ck.step()
        if not isinstance(r, Raised) or not issubclass(getattr(u, r.kind, type(None)), u.UnitsError):
            raise Violation("%s for a spectrum in %r: %r instead of a units error" % ("SED" if sed else "differential", unit, r))

    for unit in BAD:
        for sed in (True, False):
            for eu in (u.TeV, u.erg):
                ck.case("bad:%s:%s:%s" % (unit or "dimensionless", sed, eu), bad, unit, sed, eu)

    # every energy is converted on its own: whatever stands beside it, in whatever order and number
    POOL = 10.0 ** np.array([-9.0, -3.0, 0.0, 3.0, 9.0, 12.0, 15.0, 21.0, 40.0])

    def beside(fam, diff, sed, eu):
        unit = units(fam, diff)[0]
        can = FAM[fam]
        val = 3.0 * unit
        alone = []
        for x in POOL:
            phys = val.to(can[0 if diff else 1]).value * (x**2 if diff else 1.0)
            alone.append(phys / (1.0 if sed else x**2))
        sets = [w for d in (1, 2, 3) for w in itertools.product(range(len(POOL)), repeat=d)]
        sets += [tuple(range(len(POOL)))[::k] * n for k in (1, -1) for n in (1, 2, 40, 300)]
        for w in sets:
            e = (POOL[list(w)] * u.eV).to(eu)
            fu, sf = sed_conversion(e, unit, sed)
            got = (val * sf).to(fu).to(can[1 if sed else 0]).value
            want = np.array([alone[i] for i in w])
            ck.step()
            ck.state((fam, diff, sed, str(eu), w if len(w) < 12 else len(w)))
            if np.shape(got) != want.shape or not np.allclose(got, want, rtol=1e-11, atol=0):
                raise Violation("energies %s: %r instead of %r" % (e[:12], got[:12], want[:12]))

    for fam in FAM:
        for diff in (True, False):
            for sed in (True, False):
                for eu in (u.eV, u.TeV, u.erg):
                    ck.case("beside:%s:%s:%s:%s" % (fam, diff, sed, eu), beside, fam, diff, sed, eu)

    # the answer follows the contents of the caller's energies, whatever was asked before
    def hist(fam, diff, sed, form):
        unit = (units(fam, diff))[0]

        def make():
            e = np.zeros(3) * u.TeV
            if form == "table":
                t = QTable({"energy": e})
                return {"t": t, "e": t["energy"]}
            if form == "view":
                big = np.zeros(6) * u.TeV
                return {"b": big, "e": big[::2]}
            return {"e": e}

        def setter(k):
            def put(a):
                a["e"][:] = np.array([[1, 2, 3.0], [1, 2, 5.0], [7, 2, 3.0]][k]) * u.TeV
            return put

        def call(a):
            return sed_conversion(a["e"], unit, sed)

        history.replay(ck, make, [setter(k) for k in range(3)], call, 3, what="sed=%s of %s" % (sed, unit),
                       result=lambda r: (str(u.Unit(r[0])), 1.0 * r[1] * r[0]))

    for fam in FAM:
        for diff in (True, False):
            for sed in (True, False):
                for form in ("array", "table", "view"):
                    ck.case("history:%s:%s:%s:%s" % (fam, diff, sed, form), hist, fam, diff, sed, form)
