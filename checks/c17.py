"""C17: the log-likelihood is the documented statistic."""
TECHNIQUE = ("exhaustive enumeration of the discrete regions of the statistic (limit flags, confidence levels, side and size "
             "of every residual) on the real likelihood through get_sampler; oracle = the documented formula in plain numbers")
NOTE = ("All 7^n x 4^n combinations of relation of the model to each point and limit flag/level of each point for n = 1..3 "
        "(thorough 4); every representation of data (4 families, 2 modes) and model (2 types, 3 units), every partition and "
        "order of the points into tables; zero, negative, tiny and huge fluxes with one-sided, vanishing and wide errors.")

import itertools
import math

import numpy as np
from astropy import units as u
from astropy.table import QTable, Table

from mc import env  # noqa
from mc import tables as T
from mc.harness import Violation
from mc.lik import logposts

CL = (None, 0.9, 0.68, 0.99)  # None: not a limit
ES = (3e11, 8e11, 4e12, 9e12)
FS = (9e-24, 2e-24, 3e-25, 4e-26)
LO = (0.11, 0.2, 0.17, 0.3)
HI = (0.31, 0.12, 0.29, 0.23)
# relation of the model to the point, in units of the error on that side (or a factor for limits)
REL = (-4.0, -1.0, -0.001, 0.0, 0.002, 0.9, 30.0)


def rows_for(fam, cls_, nan_errors=False):
    rows = []
    for i, cl in enumerate(cls_):
        e, f = ES[i], FS[i]
        if T.is_sed(fam):
            f = f * e * e
        if fam[1] == "p":
            f *= 2e43
        r = dict(e=e, f=f, elo=f * LO[i], ehi=f * HI[i], dlo=0.1 * e, dhi=0.12 * e, ul=cl is not None, ful=f)
        if nan_errors and cl is not None:
            r["elo"] = r["ehi"] = float("nan")
        rows.append((r, cl))
    return rows


def model_value(row, i, rel):
    """The model value that has this relation to point i."""
    f = row["f"]
    return f * (1 + rel * (HI[i] if rel > 0 else LO[i]))


def oracle(fam, cls_, rels):
    tot = 0.0
    for i, (cl, rel) in enumerate(zip(cls_, rels)):
        if cl is None:
            tot += -0.5 * rel**2
        elif rel > 0:
            tot += math.log(1 - cl)
    return tot


def make_model(fam, rows, mfam, munit):
    """Model whose parameters are the relations themselves, whatever the order of the energies."""
    es = np.array([r["e"] for r, _ in rows])
    fs = np.array([r["f"] for r, _ in rows])
    hi, lo = np.array(HI[: len(rows)]), np.array(LO[: len(rows)])

    def model(pars, data):
        pars = np.asarray(pars, dtype=float)
        e = data["energy"].to("eV").value
        idx = np.array([int(np.argmin(np.abs(es / x - 1))) for x in e])
        f = fs[idx] * (1 + pars[idx] * np.where(pars[idx] > 0, hi[idx], lo[idx]))
        k = e ** {(0, 0): 0, (1, 1): 0, (0, 1): 2, (1, 0): -2}[T.is_sed(fam), T.is_sed(mfam)]
        return (f * k * T.CANON[mfam]).to(munit)

    return model


def evaluate(ck, fam, cls_, partition, mode, mfam, munit, rels, key, cont=Table, nan_errors=False, funit=None, swap=False):
    rows = rows_for(fam, cls_, nan_errors)
    tabs = []
    for j, part in enumerate(partition):
        rr = [rows[i][0] for i in part]
        cl = next((rows[i][1] for i in part if rows[i][1] is not None), None)
        if len(set(rows[i][1] for i in part) - {None}) > 1:
            return
        f2 = fam
        t, _, _ = T.write(rr, fam, "asym", "errors", ("bool", "int", "str")[j % 3], False, cl, cont, funit=funit,
                          funit2=funit)
        tabs.append(t)
    model = make_model(fam, rows, mfam, munit)
    out = logposts(tabs if len(tabs) > 1 or swap else tabs[0], model, rels, data_sed=mode, nwalkers=max(2 * len(cls_), 2))
    for rel, (lp, _) in zip(rels, out):
        want = oracle(fam, cls_, rel)
        ck.state((fam, cls_, partition, mode, mfam, str(munit), rel))
        ck.step()
        ck.outcome("%.6e" % lp)
        # the residual is a difference: rounding of the conversions is amplified by 1/relative error
        tol = 1e-9 * (1 + abs(want)) + 1e-11 * sum((1 + abs(r)) ** 2 for r in rel) / min(LO) ** 1
        if not abs(lp - want) <= tol:
            raise Violation("%s: residuals %s (in errors), limits at %s: %r instead of %r" % (key, rel, cls_, lp, want))


def run(ck):
    nmax = 3 if ck.quick else 4
    ck.bounds = dict(points=nmax, relations=len(REL), levels=len(CL))

    def regions(ck, it):
        cls_, fam, mfam = it
        key = "regions:%s:%s:%s" % (",".join(str(c) for c in cls_), fam, mfam)
        # the exact tie is not used where units are converted
        rels = [r for r in itertools.product(REL, repeat=len(cls_))
                if all(c is None or x != 0.0 for c, x in zip(cls_, r))]
        part = tuple((i,) for i in range(len(cls_)))
        ck.case(key, evaluate, ck, fam, cls_, part, None, mfam, T.CANON[mfam], rels, key,
                nan_errors=len(cls_) % 2 == 1)

    items = []
    for n in range(1, nmax + 1):
        for c in itertools.product(CL, repeat=n):
            items += [(c, "df", "df"), (c, "sf", "df")]
            if n < 3:
                items += [(c, "df", "sf"), (c, "sf", "sf"), (c, "dp", "dp"), (c, "sp", "dp"), (c, "dp", "sp"), (c, "sp", "sp")]
    ck.parallel(regions, items)

    # the tie: a model equal to the data contributes nothing, one equal to a limit does not exceed it
    def tie(cls_, rel):
        rows = rows_for("df", cls_)
        t, _, _ = T.write([r for r, _ in rows], "df", "asym", "errors", "bool", False, 0.9, QTable, funit=T.CANON["df"])

        def model(pars, data):
            return data["flux"] * (1 + np.asarray(pars))

        (lp, _), = logposts(t, model, [rel], nwalkers=2 * len(rel))
        ck.state((cls_, rel))
        ck.step()
        want = sum((math.log(1 - 0.9) if c is not None and x > 0 else 0.0) - (0 if c is not None else
                   0.5 * (x / (HI[i] if x > 0 else LO[i])) ** 2) for i, (c, x) in enumerate(zip(cls_, rel)))
        if abs(lp - want) > 1e-9 * (1 + abs(want)):
            raise Violation("model/data - 1 = %s, limits %s: %r instead of %r" % (rel, cls_, lp, want))

    for n in (1, 2, 3):
        for cls_ in itertools.product((None, 0.9), repeat=n):
            for rel in itertools.product((0.0, -1e-9, 1e-9, 0.5), repeat=n):
                ck.case("tie:%s:%s" % (cls_, rel), tie, cls_, rel)

    # unusual measurements: zero, negative, tiny or huge fluxes; one-sided, vanishing or huge errors
    FLUX = (3e-12, 0.0, -2e-12, 1e-30, 5e3)
    ERR = {"both": (0.2, 0.3), "lo": (0.25, 0.0), "hi": (0.0, 0.15), "wide": (40.0, 70.0), "equal": (0.5, 0.5)}
    UN = u.Unit("1/(cm2 s TeV)")

    def odd(ck, it):
        pts, ul, sed = it

        def go():
            e = np.array([0.4, 3.0, 20.0][: len(pts)]) * u.TeV
            scale = np.array([abs(f) or 1e-12 for f, _ in pts])
            f = np.array([f for f, _ in pts])
            lo, hi = (np.array([ERR[k][j] for _, k in pts]) * scale for j in (0, 1))
            t = Table()
            t["energy"] = e
            cols = dict(flux=f, flux_error_lo=lo, flux_error_hi=hi)
            for c, v in cols.items():
                t[c] = (v * UN * e**2).to("erg/(cm2 s)") if sed else v * UN
            if ul is not None:
                t["ul"] = [i == ul for i in range(len(pts))]
                t.meta["keywords"] = {"cl": {"value": 0.8}}
            moves = [[0.3, 2.0] if k == "hi" else [-1.5, -0.2] if k == "lo" else [-2.5, -0.3, 0.4, 3.0] for _, k in pts]
            if ul is not None:
                moves[ul] = [-1.0, 1.0]

            def model(pars, data):
                p = np.asarray(pars)
                err = np.where(p > 0, hi, lo) if ul is None else np.array(
                    [scale[i] if i == ul else (hi if p[i] > 0 else lo)[i] for i in range(len(p))])
                return (f + p * err) * UN

            rels = list(itertools.product(*moves))
            out = logposts(t, model, rels, nwalkers=max(2 * len(pts), 2))
            for rel, (lp, _) in zip(rels, out):
                want = sum((math.log(1 - 0.8) if r > 0 else 0.0) if i == ul else -0.5 * r * r for i, r in enumerate(rel))
                ck.state((pts, ul, sed, rel))
                ck.step()
                if not abs(lp - want) <= 1e-8 * (1 + abs(want)):
                    raise Violation("points %s, limit %s, residuals %s: %r instead of %r" % (pts, ul, rel, lp, want))

        ck.case("odd:%s:%s:%s" % (pts, ul, sed), go)

    P = [(f, k) for f in FLUX for k in ERR]
    items = [((a,), None, s) for a in P for s in (False, True)]
    items += [((a, b), ul, False) for a in P for b in P for ul in (None, 0, 1)]
    if not ck.quick:
        items += [((a, b), ul, True) for a in P for b in P for ul in (None, 0, 1)]
        items += [((a, b, c), 1, False) for a in P for b in P for c in P]
    ck.parallel(odd, items)

    # representations of data and model
    rels3 = [r for r in itertools.product((-4.0, -0.001, 0.9, 30.0), repeat=3)]

    def reps(ck, it):
        cls_, fam, mode, mfam, munit, funit, cont = it
        key = "reps:%s:%s:%s:%s:%s:%s:%s" % (",".join(map(str, cls_)), fam, mode, mfam, munit, funit, cont.__name__)
        ck.case(key, evaluate, ck, fam, cls_, ((0, 1, 2),), mode, mfam, munit, rels3, key, cont=cont, funit=funit)

    items = []
    for cls_ in ((None, 0.9, None), (0.68, 0.68, None), (0.99, 0.99, 0.99), (None, None, None)):
        for fam in ("df", "sf", "dp", "sp"):
            for mode in (None, True, False):
                for mfam in ("d" + fam[1], "s" + fam[1]):
                    for munit in T.UNITS[mfam][:3]:
                        for funit in T.UNITS[fam][: (2 if ck.quick else 4)]:
                            items.append((cls_, fam, mode, mfam, munit, funit, Table if mode else QTable))
    ck.parallel(reps, items)

    # every partition of the points into ordered tables and every order within them
    def arrangements(n):
        """All lists of lists of 0..n-1 (ordered tables of ordered rows)."""
        out = set()
        for perm in itertools.permutations(range(n)):
            for cuts in itertools.product((0, 1), repeat=n - 1):
                cur, parts = [perm[0]], []
                for c, x in zip(cuts, perm[1:]):
                    if c:
                        parts.append(tuple(cur))
                        cur = [x]
                    else:
                        cur.append(x)
                parts.append(tuple(cur))
                out.add(tuple(parts))
        return sorted(out)

    rels_p = {n: list(itertools.product((-1.0, 0.9, 4.0), repeat=n)) for n in (2, 3, 4)}

    def parts(ck, it):
        cls_, part, mode = it
        key = "parts:%s:%s:%s" % (",".join(map(str, cls_)), part, mode)
        ck.case(key, evaluate, ck, "df", cls_, part, mode, "df", T.UNITS["df"][1], rels_p[len(cls_)], key, swap=True)

    items = [(c, p, m) for n in range(2, nmax + 1) for c in itertools.product((None, 0.9, 0.68), repeat=n)
             for p in arrangements(n) for m in (None, True)
             if all(len({c[i] for i in q} - {None}) <= 1 for q in p)]
    ck.parallel(parts, items)
