"""Abstract data tables (plain numbers) and every way of writing one down for naima.

A row is a dict of floats: e, lo, hi (energy edges, eV; None if not given), f, elo, ehi (flux and
errors in the canonical unit of the family), ul (bool), ful (limit value or None).
"""
import io
import math

import numpy as np
from astropy import units as u
from astropy.io import ascii as _ascii
from astropy.table import Column, QTable, Table

EV = u.eV
CM2S = u.cm**-2 * u.s**-1
# family: canonical unit, is it an SED, particle flux (True) or luminosity (False)
CANON = {
    "df": u.Unit("1/(cm2 s eV)"),
    "sf": u.Unit("eV/(cm2 s)"),
    "dp": u.Unit("1/(s eV)"),
    "sp": u.Unit("eV/s"),
}
UNITS = {
    "df": [u.Unit("1/(cm2 s TeV)"), u.Unit("1/(cm2 s keV)"), u.Unit("1/(m2 s erg)"), u.Unit("1/(cm2 s MeV)"),
           u.Unit("1/(cm2 yr GeV)")],
    "sf": [u.Unit("erg/(cm2 s)"), u.Unit("TeV/(cm2 s)"), u.Unit("W/m2"), u.Unit("keV/(cm2 s)")],
    "dp": [u.Unit("1/(s TeV)"), u.Unit("1/(s erg)"), u.Unit("1/(yr eV)")],
    "sp": [u.Unit("erg/s"), u.Unit("W"), u.Unit("TeV/s"), u.Unit("solLum")],
}
EUNITS = [u.TeV, u.keV, u.erg, u.J, u.eV, u.GeV]


def is_sed(fam):
    return fam[0] == "s"


def conv(fam, sed):
    """(target family, power of the energy in eV to multiply by)."""
    if sed == is_sed(fam):
        return fam, 0
    return ("s" if sed else "d") + fam[1], (2 if sed else -2)


FERR = ("sym", "asym")
EFMT = ("width", "error", "errors", "edges", "none")
ULF = ("no", "int", "bool", "str")


def edges_rule(es):
    """Bin edges of a group of energies: geometric means of neighbours; the lowest bin reaches as far
    down as up in log, the highest as far up as down linearly."""
    order = sorted(range(len(es)), key=lambda i: es[i])
    s = [es[i] for i in order]
    n = len(s)
    mid = [math.sqrt(s[i] * s[i + 1]) for i in range(n - 1)]
    lo, hi = [0.0] * n, [0.0] * n
    for k in range(n):
        if k > 0:
            lo[k] = s[k] - mid[k - 1]
        if k < n - 1:
            hi[k] = mid[k] - s[k]
    lo[0] = s[0] * (1 - s[0] / (s[0] + hi[0]))
    hi[-1] = lo[-1]
    out = [None] * n
    for k, i in enumerate(order):
        out[i] = (lo[k], hi[k])
    return out


def write(rows, fam, ferr="sym", efmt="none", ulf="no", ful=False, cl=None, cls=Table, eunit=u.TeV, funit=None,
          funit2=None, eunit2=None, group=None):
    """The table of these rows in a given format. Returns (table, rows it describes, confidence level)."""
    funit = funit or UNITS[fam][0]
    funit2 = funit2 or funit
    eunit2 = eunit2 or eunit
    C = CANON[fam]

    def fq(vals, un):
        return (np.array(vals, dtype=float) * C).to(un)

    def eq(vals, un):
        return (np.array(vals, dtype=float) * EV).to(un)

    t = QTable()
    rows = [dict(r) for r in rows]
    e = [r["e"] for r in rows]
    t["energy"] = eq(e, eunit)
    t["flux"] = fq([r["f"] for r in rows], funit)
    if ferr == "sym":
        for r in rows:
            r["elo"] = r["ehi"]
        t["flux_error"] = fq([r["ehi"] for r in rows], funit2)
    else:
        t["flux_error_lo"] = fq([r["elo"] for r in rows], funit2)
        t["flux_error_hi"] = fq([r["ehi"] for r in rows], funit)
    if efmt == "width":
        for r in rows:
            w = r["dlo"] + r["dhi"]
            r["dlo"] = r["dhi"] = w / 2
        t["energy_width"] = eq([r["dlo"] + r["dhi"] for r in rows], eunit2)
    elif efmt == "error":
        for r in rows:
            r["dlo"] = r["dhi"]
        t["energy_error"] = eq([r["dhi"] for r in rows], eunit2)
    elif efmt == "errors":
        t["energy_error_lo"] = eq([r["dlo"] for r in rows], eunit2)
        t["energy_error_hi"] = eq([r["dhi"] for r in rows], eunit)
    elif efmt == "edges":
        t["energy_lo"] = eq([r["e"] - r["dlo"] for r in rows], eunit2)
        t["energy_hi"] = eq([r["e"] + r["dhi"] for r in rows], eunit)
    else:
        gs = group if group is not None else [0] * len(rows)
        for g in set(gs):
            idx = [i for i in range(len(rows)) if gs[i] == g]
            for i, (lo, hi) in zip(idx, edges_rule([e[i] for i in idx])):
                rows[i]["dlo"], rows[i]["dhi"] = lo, hi
    if ulf == "no":
        for r in rows:
            r["ul"] = False
    elif ulf == "int":
        t["ul"] = np.array([int(r["ul"]) for r in rows])
    elif ulf == "bool":
        t["ul"] = np.array([bool(r["ul"]) for r in rows])
    else:
        t["ul"] = np.array([str(bool(r["ul"])) for r in rows])
    if ful:
        vals = [r["ful"] if r["ul"] else float("nan") for r in rows]
        t["flux_ul"] = fq(vals, funit2)
        for r in rows:
            if r["ul"]:
                r["f"] = r["ful"]
    if group is not None:
        t["group"] = list(group)
    if cl is not None:
        t.meta["keywords"] = {"cl": {"value": cl}}
    t.meta["comments"] = ["made for a check"]
    if cls is Table:
        t = Table(t)
        for c in t.colnames:
            if hasattr(t[c], "unit") and not isinstance(t[c], Column):
                t[c] = Column(t[c].value, unit=t[c].unit)
        t = Table(t)
    return t, rows, (0.9 if cl is None else cl)


def through_file(t, fmt):
    b = io.StringIO()
    Table(t).write(b, format="ascii." + fmt)
    return _ascii.read(b.getvalue(), format=fmt)


def expect(rows, fam, cl, sed, tag):
    """Rows as they must appear after validation: (target family, list of dicts)."""
    tf, p = conv(fam, sed)
    out = []
    for r in rows:
        k = r["e"] ** p
        out.append(dict(e=r["e"], f=r["f"] * k, elo=r["elo"] * k, ehi=r["ehi"] * k, dlo=r["dlo"], dhi=r["dhi"],
                        ul=bool(r["ul"]), cl=cl, g=tag if not isinstance(tag, dict) else tag[id(r)]))
    return tf, out


def read(v, tf):
    """Rows of a validated table, in its order."""
    C = CANON[tf]
    cols = dict(
        e=v["energy"].to(EV).value, f=v["flux"].to(C).value, elo=v["flux_error_lo"].to(C).value,
        ehi=v["flux_error_hi"].to(C).value, dlo=v["energy_error_lo"].to(EV).value,
        dhi=v["energy_error_hi"].to(EV).value, ul=np.array(v["ul"]), cl=np.array(v["cl"]), g=np.array(v["group"]))
    return [{k: c[i] for k, c in cols.items()} for i in range(len(v))]


def close(a, b, scale=0.0, rtol=1e-9):
    if a != a or b != b:
        return (a != a) and (b != b)
    if a == b:
        return True
    return abs(a - b) <= rtol * max(abs(b), scale)


def row_diff(g, w):
    """None if the row g equals w."""
    for k in ("e", "f", "elo", "ehi", "cl"):
        if not close(float(g[k]), float(w[k])):
            return "%s is %r instead of %r" % (k, float(g[k]), float(w[k]))
    for k in ("dlo", "dhi"):
        if not close(float(g[k]), float(w[k]), scale=w["e"]):
            return "%s is %r instead of %r" % (k, float(g[k]), float(w[k]))
    if not isinstance(g["ul"], (bool, np.bool_)) or bool(g["ul"]) != w["ul"]:
        return "ul is %r instead of %r" % (g["ul"], w["ul"])
    if g["g"] != w["g"]:
        return "tag is %r instead of %r" % (g["g"], w["g"])
    return None


def rows_diff(got, want):
    """Compare as sequences in energy order, rows of equal energy in any order."""
    if len(got) != len(want):
        return "%d rows instead of %d" % (len(got), len(want))
    es = [r["e"] for r in got]
    for a, b in zip(es, es[1:]):
        if b < a * (1 - 1e-12):
            return "rows not in energy order: %r" % (es,)
    left = list(want)
    for i, g in enumerate(got):
        ds = [(row_diff(g, w), w) for w in left if close(g["e"], w["e"])]
        for d, w in ds:
            if d is None:
                left = [x for x in left if x is not w]
                break
        else:
            return "row %d (E = %.6g eV): %s" % (i, g["e"], ds[0][0] if ds else "no such energy in the input")
    return None


def snap(t):
    """Everything a caller can see of a table."""
    out = [type(t).__name__, repr(t.meta)]
    for c in t.colnames:
        col = t[c]
        v = np.asarray(getattr(col, "value", col))
        out.append((c, type(col).__name__, str(getattr(col, "unit", None)), v.dtype.str,
                    v.tobytes() if v.dtype != object else repr(v)))
    return out
