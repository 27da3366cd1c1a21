"""C28: convenience tools compute what they document."""
TECHNIQUE = ("exhaustive enumeration of all groupings and orders of small energy arrays, of every combination of arguments for "
             "building a table, and of all pairs of tables over grids of fluxes, units, formats, orders and densities for the "
             "field estimate, each compared with plain-number references")
NOTE = ("every set partition and every permutation of up to 4 energies (5 thorough), 6 spacings x 5 units; all argument "
        "combinations of build_data_table; 2 x 8 spectra x 4 formats x all orders of up to 4 rows for estimate_B")

import itertools
import math

import numpy as np
from astropy import units as u
from astropy.table import QTable, Table

from mc import env  # noqa
from mc import tables as T
from mc.common import observe, Raised
from mc.harness import Violation
from naima.utils import build_data_table, estimate_B, generate_energy_edges, validate_data_table

SPACINGS = {
    "log": (1.0, 2.0, 4.0, 8.0, 16.0),
    "lin": (1.0, 2.0, 3.0, 4.0, 5.0),
    "close": (1.0, 1.0 + 1e-6, 1.0 + 3e-6, 1.1, 1.100001),
    "wide": (1e-9, 1e-3, 1.0, 1e5, 1e12),
    "mixed": (0.3, 0.31, 7.0, 7.5, 900.0),
    "big": (1e15, 3e15, 4e15, 2e17, 1e20),
}
LABELS = {"int": lambda i: i, "gap": lambda i: 7 - 3 * i, "str": lambda i: "set%d" % i, "float": lambda i: i / 2.0}


def partitions(n):
    """Restricted growth strings: every set partition of n items."""
    def rec(p, k):
        if len(p) == n:
            yield tuple(p)
            return
        for j in range(k + 1):
            yield from rec(p + [j], max(k, j + 1))

    yield from rec([], 0)


def edges_want(e, part):
    lo, hi = [0.0] * len(e), [0.0] * len(e)
    for g in set(part):
        ix = [i for i in range(len(e)) if part[i] == g]
        s = sorted(ix, key=lambda i: e[i])
        for a, b in zip(s, s[1:]):
            m = math.sqrt(e[a]) * math.sqrt(e[b])
            hi[a], lo[b] = m - e[a], e[b] - m
        if len(s) > 1:
            lo[s[0]] = e[s[0]] - e[s[0]] ** 2 / (e[s[0]] + hi[s[0]])
            hi[s[-1]] = lo[s[-1]]
    return lo, hi


def run_edges(ck):
    def one(ck, it):
        sp, n, perm = it

        def go():
            e = [SPACINGS[sp][i] for i in perm]
            for part in partitions(n):
                wlo, whi = edges_want(e, part)
                for un in (u.TeV, u.keV, u.eV, u.erg, u.J):
                    q = np.array(e) * u.TeV.to(un) * un
                    variants = [("array", np.array([LABELS["int"](p) for p in part]))]
                    if un is u.TeV:
                        variants += [(k, np.array([f(p) for p in part])) for k, f in LABELS.items()]
                        variants += [("list", list(part)), ("tuple", part)]
                        variants += [("column", QTable({"g": list(part)})["g"])]
                    if len(set(part)) == 1:
                        variants.append(("none", None))
                    for vn, groups in variants:
                        keep = q.copy()
                        r = generate_energy_edges(q) if vn == "none" else generate_energy_edges(q, groups=groups)
                        ck.step()
                        lo, hi = r
                        if not np.array_equal(keep.value, q.value):
                            raise Violation("energies modified")
                        for what, got, w in (("lower", lo, wlo), ("upper", hi, whi)):
                            g = np.atleast_1d(u.Quantity(got).to("TeV").value)
                            if g.shape != (n,) or not all(abs(x - y) <= 1e-12 * z + 1e-9 * abs(y) for x, y, z in zip(g, w, e)):
                                raise Violation("%s widths of %s TeV (given in %s, groups %s as %s): %s instead of %s"
                                                % (what, e, un, part, vn, list(g), w))
                        edge = (q - lo).to("TeV").value
                        if not np.all(edge > 0):
                            raise Violation("lower edges %s for energies %s, groups %s" % (edge, e, part))
                        if np.any(u.Quantity(hi).value < 0) or np.any(u.Quantity(lo).value < 0):
                            raise Violation("negative widths for %s" % (e,))
                    ck.state((sp, perm, part, str(un)))
                # the same in a table without bins
                t = QTable({"energy": np.array(e) * u.TeV, "flux": np.array(e) * u.Unit("1/(cm2 s TeV)"),
                            "flux_error": np.ones(n) * u.Unit("1/(cm2 s TeV)"), "group": list(part)})
                v = validate_data_table(t, sed=False)
                ck.step()
                srt = sorted(range(n), key=lambda i: e[i])
                for k, i in enumerate(srt):
                    for c, w in (("energy_error_lo", wlo), ("energy_error_hi", whi)):
                        x = float(v[c][k].to("TeV").value)
                        if abs(x - w[i]) > 1e-12 * e[i] + 1e-9 * abs(w[i]):
                            raise Violation("table of energies %s, groups %s: %s of the %d-th is %r instead of %r"
                                            % (e, part, c, k, x, w[i]))
            ck.outcome((n, len(set(perm))))

        ck.case("edges:%s:%s" % (sp, "".join(map(str, perm))), go)

    nmax = 4 if ck.quick else 5
    items = [(sp, n, perm) for sp in SPACINGS for n in range(1, nmax + 1) for perm in itertools.permutations(range(n))]
    ck.parallel(one, items)


# ------------------------------------------------------------------ building a table
def run_build(ck):
    E = np.array([2.0, 0.3, 9.0, 1.1])
    F = np.array([3.0, 11.0, 0.4, -1.0])
    LO, HI = np.array([0.4, 2.0, 0.1, 0.5]), np.array([0.9, 1.0, 0.3, 0.7])
    W = np.array([0.5, 0.1, 2.0, 0.4])
    ELO, EHI = E - np.array([0.2, 0.05, 1.0, 0.3]), E + np.array([0.4, 0.02, 3.0, 0.1])
    FU = {"df": (u.Unit("1/(cm2 s TeV)"), u.Unit("1/(m2 s erg)")), "sf": (u.Unit("erg/(cm2 s)"), u.Unit("W/m2")),
          "dp": (u.Unit("1/(s TeV)"), u.Unit("1/(s erg)")), "sp": (u.Unit("erg/s"), u.Unit("W"))}
    ULS = {"none": None, "bool": np.array([False, True, False, True]), "int": np.array([0, 1, 0, 1]),
           "list": [0, 1, 0, 1], "boollist": [False, True, False, True], "zeros": np.zeros(4, bool)}

    def one(ck, it):
        fam, alt, err, bins, uln, cl, perm = it

        def go():
            p = list(perm)
            fu = FU[fam][alt]
            eu = (u.TeV, u.keV)[alt]
            fq = lambda x, w=fu: (np.array(x)[p] * FU[fam][0]).to(w)
            eq = lambda x: (np.array(x)[p] * u.TeV).to(eu)
            kw = {}
            if err in ("sym", "both"):
                kw["flux_error"] = fq(W)
            if err in ("asym", "both", "losthi"):
                kw["flux_error_lo"] = fq(LO)
            if err in ("asym", "both", "lostlo"):
                kw["flux_error_hi"] = fq(HI)
            if bins in ("width", "both"):
                kw["energy_width"] = eq(W)
            if bins in ("edges", "both", "losthi"):
                kw["energy_lo"] = eq(ELO)
            if bins in ("edges", "both"):
                kw["energy_hi"] = eq(EHI)
            ul = ULS[uln]
            if ul is not None:
                ul = [ul[i] for i in p] if isinstance(ul, list) else ul[p]
                kw["ul"] = ul
            if cl is not None:
                kw["cl"] = cl
            e, f = eq(E), fq(F)
            keep = {k: np.array(u.Quantity(v).value if k != "ul" else v, copy=True) for k, v in kw.items()}
            r = observe(build_data_table, e, f, **kw)
            ck.step()
            for k, v in kw.items():
                if not np.array_equal(keep[k], np.array(u.Quantity(v).value if k != "ul" else v)):
                    raise Violation("argument %s modified" % k)
            if err in ("none", "losthi", "lostlo"):
                if not isinstance(r, Raised):
                    raise Violation("a table was built without usable flux errors (%s)" % err)
                return
            if isinstance(r, Raised):
                raise Violation("arguments %s: %r" % (sorted(kw), r))
            v = validate_data_table(r)
            order = sorted(range(4), key=lambda i: E[i])
            want = {"energy": E, "flux": F, "flux_error_lo": W if err in ("sym", "both") else LO,
                    "flux_error_hi": W if err in ("sym", "both") else HI}
            if bins in ("width", "both"):
                want["energy_error_lo"] = want["energy_error_hi"] = W / 2
            elif bins == "edges":
                want["energy_error_lo"], want["energy_error_hi"] = E - ELO, EHI - E
            else:
                lo, hi = edges_want(list(E), (0,) * 4)
                want["energy_error_lo"], want["energy_error_hi"] = np.array(lo), np.array(hi)
            for c, w in want.items():
                unit = u.TeV if c.startswith("energy") else FU[fam][0]
                g = v[c].to(unit).value
                w = np.array(w)[order]
                if g.shape != (4,) or not np.allclose(g, w, rtol=1e-9, atol=1e-12):
                    raise Violation("%s of the table built with %s: %s instead of %s" % (c, sorted(kw), g, w))
            wul = [bool(ULS[uln][i]) if ULS[uln] is not None else False for i in order]
            if [bool(x) for x in v["ul"]] != wul:
                raise Violation("limits %s instead of %s" % (list(v["ul"]), wul))
            if any(abs(float(x) - (0.9 if cl is None else cl)) > 1e-12 for x in v["cl"]):
                raise Violation("confidence level %s for cl=%r" % (list(v["cl"]), cl))
            # the table itself holds what was given, in the given order and units
            for c, w in (("energy", e), ("flux", f)):
                if not np.array_equal(u.Quantity(r[c]).to(w.unit).value, w.value) or u.Quantity(r[c]).unit != w.unit:
                    raise Violation("column %s is %s" % (c, r[c]))
            ck.state(it)
            ck.outcome((fam, err, bins, uln))

        ck.case("build:%s:%d:%s:%s:%s:%s:%s" % (it[:6] + ("".join(map(str, perm)),)), go)

    perms = list(itertools.permutations(range(4)))
    items = [(f, a, e, b, ul, cl, p) for f in FU for a in (0, 1) for e in ("sym", "asym", "both", "none", "losthi", "lostlo")
             for b in ("none", "width", "edges", "both", "losthi") for ul in ULS for cl in (None, 0.68, 0.95)
             for p in (perms[0],) if not (e in ("none", "losthi", "lostlo") and (ul not in ("none", "int") or b == "both"))]
    items += [("df", 0, e, b, ul, None, p) for e in ("sym", "asym") for b in ("none", "width", "edges") for ul in ("bool", "list")
              for p in perms]
    ck.parallel(one, items)


# ------------------------------------------------------------------ field estimate
def loglog(e, f):
    """Integral of e * f over e, power law between points (rows sorted)."""
    s = 0.0
    for (x1, y1), (x2, y2) in zip(sorted(zip(e, f)), sorted(zip(e, f))[1:]):
        a, b = y1 * x1, y2 * x2
        if a == 0 or b == 0 or x1 == x2:
            continue
        k = math.log(b / a) / math.log(x2 / x1) + 1
        s += x1 * a * (math.log(x2 / x1) if abs(k) < 1e-9 else math.expm1(k * math.log(x2 / x1)) / k)
    return s


# energies in TeV, differential flux in 1/(cm2 s TeV) or 1/(s TeV)
SPECS = {
    "xflat": ([1e-9, 3e-9, 8e-9, 2e-8], [4e6, 4e5, 6e4, 9e3]),
    "xtwo": ([1e-9, 1e-8], [1.0e6, 2.0e4]),
    "xe2": ([1e-9, 4e-9, 1e-8], [1e6, 1e6 / 16.0, 1e4]),  # exactly E**-2
    "vflat": ([0.3, 1.0, 5.0, 20.0], [3e-11, 4e-12, 2e-13, 4e-15]),
    "vtwo": ([0.5, 7.0], [2e-12, 1e-14]),
    "ve2": ([1.0, 2.0, 8.0], [1e-12, 1e-12 / 4, 1e-12 / 64]),
    "vzero": ([0.3, 1.0, 5.0, 20.0], [3e-11, 4e-12, 2e-13, 0.0]),
    "vrise": ([0.3, 1.0, 5.0], [1e-12, 2e-12, 9e-12]),
}
XS, VS = ("xflat", "xtwo", "xe2"), ("vflat", "vtwo", "ve2", "vzero", "vrise")


def spectrum(name, fam, eu, perm, k=1.0, cls=QTable, split=False):
    e, f = (np.array(x, dtype=float) for x in SPECS[name])
    f = f * k
    perm = [i for i in perm if i < len(e)]
    e, f = e[perm], f[perm]
    base = u.Unit("1/(cm2 s TeV)") if fam[1] == "f" else u.Unit("1/(s TeV)")
    q = f * base
    if fam[0] == "s":
        q = (q * (e * u.TeV) ** 2).to("erg/(cm2 s)" if fam[1] == "f" else "erg/s")
    t = QTable()
    t["energy"] = (e * u.TeV).to(eu)
    t["flux"] = q
    t["flux_error"] = np.abs(q) * 0.1 + 1e-30 * q.unit
    t = cls(t)
    return [t[:1], t[1:]] if split else t


def run_field(ck):
    def wantB(x, v, k, uph):
        r = k * loglog(*SPECS[x]) / loglog(*SPECS[v])
        return math.sqrt(8 * math.pi * uph * r) * 1e6

    DENS = {"default": (None, 0.261 * 1.602176634e-12), "ev": (2.5 * u.eV / u.cm**3, 2.5 * 1.602176634e-12),
            "jm3": (3e-13 * u.J / u.m**3, 3e-12), "erg": (1e-12 * u.erg / u.cm**3, 1e-12),
            "tiny": (1e-9 * u.eV / u.cm**3, 1e-9 * 1.602176634e-12)}

    def one(ck, it):
        x, v, fx, fv, eu, perm, dens, k, cls = it

        def go():
            a = spectrum(x, fx, eu, perm, k, cls)
            b = spectrum(v, fv, u.TeV, tuple(reversed(perm)), 1.0, cls)
            d, num = DENS[dens]
            ka, kb = T.snap(a), T.snap(b)
            r = estimate_B(a, b) if d is None else estimate_B(a, b, photon_energy_density=d)
            ck.step()
            if T.snap(a) != ka or T.snap(b) != kb:
                raise Violation("a table was modified")
            w = wantB(x, v, k, num)
            g = r.to("uG").value
            if not np.ndim(g) == 0 or not abs(g - w) <= 1e-8 * w:
                raise Violation("field estimate of %s (%s) and %s (%s), density %s: %r instead of %r uG"
                                % (x, fx, v, fv, dens, g, w))
            ck.state(it[:8])
            ck.outcome(round(math.log10(w), 3))

        ck.case("field:%s:%s:%s:%s:%s:%s:%s:%g:%s" % (x, v, fx, fv, eu, "".join(map(str, perm)), dens, k, cls.__name__), go)

    perms = list(itertools.permutations(range(4)))
    items = [(x, v, fx, fv, eu, perms[0], d, k, cls) for x in XS for v in VS
             for fx, fv in (("df", "df"), ("df", "sf"), ("sf", "df"), ("sf", "sf"), ("dp", "dp"), ("sp", "dp"), ("dp", "sp"))
             for eu in (u.TeV, u.keV, u.erg) for d in DENS for k in (1.0, 4.0, 1e-6) for cls in (QTable, Table)]
    if ck.quick:
        items = [i for i in items if i[8] is QTable or (i[6] == "default" and i[7] == 1.0)]
    items += [(x, v, "df", "sf", u.keV, p, "default", 1.0, QTable) for x in XS for v in VS for p in perms]
    ck.parallel(one, items)

    # spectra given in pieces
    def pieces(ck, it):
        x, v = it

        def go():
            for sx in (False, True):
                for sv in (False, True):
                    r = estimate_B(spectrum(x, "df", u.keV, (0, 1, 2, 3), split=sx), spectrum(v, "sf", u.TeV, (2, 0, 1, 3), split=sv))
                    ck.step()
                    w = wantB(x, v, 1.0, DENS["default"][1])
                    if not abs(r.to("uG").value - w) <= 1e-8 * w:
                        raise Violation("spectra in pieces (%s, %s): %s instead of %r" % (sx, sv, r, w))
                    ck.state((x, v, sx, sv))

        ck.case("pieces:%s:%s" % it, go)

    ck.parallel(pieces, [(x, v) for x in XS for v in VS])


def run(ck):
    from astropy import log

    log.setLevel("ERROR")
    ck.bounds = dict(energies=4 if ck.quick else 5, partitions="all", orders="all", units=5, arguments="all combinations")
    run_edges(ck)
    run_build(ck)
    run_field(ck)
