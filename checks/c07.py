"""C07: log-log integration is exact for piecewise power laws."""
TECHNIQUE = ("exhaustive enumeration of piecewise power laws (all index words over an alphabet x break grids x "
             "zero masks x array layouts) on the real integrator against the analytic integral")
NOTE = ("Complete within: up to 4 (thorough 5) intervals, 12 indices including -1 and its float neighbourhood, "
        "5 break grids, 3 normalisations, all zero masks, every axis of up to 3 dimensions, x as vector or full "
        "array, unit combinations. Oracle: closed-form integral in expm1 form, mpmath-free.")

import itertools
import math

import numpy as np
from astropy import units as u

from mc import env  # noqa
from mc.common import observe, Raised
from mc.harness import Violation
from naima.utils import trapz_loglog

IDX = [-60.0, -3.0, -2.0, -1.0 - 1e-5, -1.0, -1.0 + 1e-13, -0.5, 0.0, 1.0, 2.5, 40.0]
GRIDS = {
    "dec": [1.0, 10.0, 100.0, 1000.0, 1e4, 1e5],
    "tiny": [1e-30, 1.1e-30, 3e-30, 4e-30, 1e-29, 2e-29],
    "big": [1e20, 1e21, 5e25, 6e25, 7e28, 1e29],
    "fine": [1.0, 1.01, 1.0201, 1.04, 1.05, 1.06],
    "zerow": [2.0, 3.0, 3.0, 7.0, 7.0, 9.0],
    "down": [50.0, 20.0, 8.0, 3.0, 1.0, 0.2],
}
NORM = [1e-200, 1.0, -3e40]


def analytic(x1, x2, y1, b):
    """\\int_{x1}^{x2} y1 (x/x1)^b dx"""
    if x1 == x2:
        return 0.0
    L = math.log(x2 / x1)
    t = (b + 1) * L
    if abs(t) < 1e-3:
        return y1 * x1 * L * (1 + t / 2 + t * t / 6 + t**3 / 24 + t**4 / 120)
    return y1 * x1 * math.expm1(t) / (b + 1)


def build(x, idx, n0):
    y = [n0]
    for i, b in enumerate(idx):
        y.append(y[-1] * (x[i + 1] / x[i]) ** b)
    return y


def run(ck):
    maxn = 3 if ck.quick else 5
    ck.bounds = dict(indices=IDX, grids=list(GRIDS), normalisations=NORM, max_intervals=maxn)

    def close(got, want, scale, tol):
        return math.isfinite(got) and abs(got - want) <= tol * scale

    def words(ck, it):
        g, n, first = it

        def go():
            x = GRIDS[g][: n + 1]
            for rest in itertools.product(IDX, repeat=n - 1):
                idx = (first,) + rest
                for n0 in NORM:
                    y = build(x, idx, n0)
                    # steep words leave the range of floats: no power law there
                    if not all(1e-290 < abs(v) < 1e250 for v in y):
                        continue
                    parts = [analytic(x[i], x[i + 1], y[i], idx[i]) for i in range(n)]
                    want = math.fsum(parts)
                    scale = math.fsum(abs(p) for p in parts)
                    # the index is recovered from the values: conditioning of log(y2/y1)
                    tol = 1e-7
                    got = float(trapz_loglog(np.array(y), np.array(x)))
                    ck.step()
                    ck.state((g, idx, n0))
                    if not close(got, want, scale, tol):
                        raise Violation("x %s, indices %s, norm %g: %r instead of %r" % (x, idx, n0, got, want))
                    iv = np.asarray(trapz_loglog(np.array(y), np.array(x), intervals=True))
                    ck.step()
                    if iv.shape != (n,) or any(not close(float(a), b, abs(b), tol) for a, b in zip(iv, parts)):
                        raise Violation("intervals of x %s, indices %s: %s instead of %s" % (x, idx, iv, parts))
                    ck.outcome("%.9e" % got)
                    if n == 2 or n0 != 1.0:
                        continue
                    for cut in range(1, n):
                        a = float(trapz_loglog(np.array(y[: cut + 1]), np.array(x[: cut + 1])))
                        b = float(trapz_loglog(np.array(y[cut:]), np.array(x[cut:])))
                        ck.step(2)
                        if not close(a + b, got, scale, tol):
                            raise Violation("split at %d: %r + %r != %r" % (cut, a, b, got))

        ck.case("words:%s:%d:%r" % it, go)

    ck.parallel(words, [(g, n, b) for g in GRIDS for n in range(1, maxn + 1) for b in IDX])

    # zero values: the intervals touching them contribute nothing, the others are unaffected
    def zeros(ck, it):
        g, n, first = it

        def go():
            x = GRIDS[g][: n + 1]
            for rest in itertools.product([-2.0, -1.0, 0.5], repeat=n - 1):
                idx = (first,) + rest
                y0 = build(x, idx, 2.5)
                parts = [analytic(x[i], x[i + 1], y0[i], idx[i]) for i in range(n)]
                for mask in itertools.product([0, 1], repeat=n + 1):
                    y = [0.0 if m else v for m, v in zip(mask, y0)]
                    p = [0.0 if mask[i] or mask[i + 1] else parts[i] for i in range(n)]
                    got = float(trapz_loglog(np.array(y), np.array(x)))
                    iv = np.asarray(trapz_loglog(np.array(y), np.array(x), intervals=True))
                    ck.step(2)
                    ck.state((g, idx, mask))
                    sc = math.fsum(abs(v) for v in p)
                    if not close(got, math.fsum(p), sc, 1e-9):
                        raise Violation("x %s y %s: %r instead of %r" % (x, y, got, math.fsum(p)))
                    if any(not close(float(a), b, abs(b), 1e-9) for a, b in zip(iv, p)):
                        raise Violation("intervals of x %s y %s: %s instead of %s" % (x, y, iv, p))

        ck.case("zeros:%s:%d:%r" % it, go)

    ck.parallel(zeros, [(g, n, b) for g in GRIDS for n in range(1, (5 if ck.quick else 6)) for b in (-2.0, -1.0, 0.5)])

    # a jump at a repeated break point belongs to neither side
    def jumps():
        for idx in itertools.product(IDX[1:9], repeat=2):
            for k in (0.0, 1e-3, 0.5, 3.0, 1e12):
                x = [2.0, 3.0, 3.0, 7.0]
                y = [1.5, 1.5 * 1.5 ** idx[0]]
                y += [y[1] * k, y[1] * k * (7 / 3) ** idx[1]]
                want = [analytic(2.0, 3.0, y[0], idx[0]), 0.0, analytic(3.0, 7.0, y[2], idx[1])]
                iv = np.asarray(trapz_loglog(np.array(y), np.array(x), intervals=True))
                got = float(trapz_loglog(np.array(y), np.array(x)))
                ck.step(2)
                ck.state(("jump", idx, k))
                if not np.allclose(iv, want, rtol=1e-7, atol=0) or not close(got, sum(want), sum(want), 1e-7):
                    raise Violation("jump by %g, indices %s: %s instead of %s" % (k, idx, iv, want))

    ck.case("jumps", jumps)

    # extreme values next to each other: finite, and equal to the closed form
    def extremes():
        vals = [1e-320, 1e-310, 1e-300, 1e-160, 1.0, 1e160, 1e290]
        for y1, y2 in itertools.product(vals, repeat=2):
            for x1, x2 in ((1.0, 2.0), (1e-20, 1e10), (1e3, 1e5)):
                got = float(trapz_loglog(np.array([y1, y2]), np.array([x1, x2])))
                ck.step()
                ck.state(("ext", y1, y2, x1, x2))
                b = (math.log(y2) - math.log(y1)) / math.log(x2 / x1)
                if abs(b + 1) < 1e-9:
                    continue
                want = (y2 * x2 - y1 * x1) / (b + 1)
                if not (math.isfinite(got) and abs(got - want) <= 1e-6 * abs(want) + 1e-3 * max(y1 * x1, 1e-300)):
                    # (a ratio beyond the range of floats may count as a zero)
                    if y2 / y1 in (0.0, math.inf) and got == 0:
                        continue
                    raise Violation("y %g %g over x %g %g: %r instead of %r" % (y1, y2, x1, x2, got, want))

    ck.case("extremes", extremes)

    # array layouts: axis, dimensionality, x as vector or full array, units, containers
    def layout(ck, it):
        nd, axis, xfull, yu, xu, iv = it

        def go():
            shape = [2, 3, 2][:nd]
            ax = axis % nd
            n = 4
            shape[ax] = n
            x = np.array(GRIDS["dec"][:n])
            other = [s for i, s in enumerate(shape) if i != ax]
            combos = list(itertools.product(IDX[1:6], repeat=3))
            rows = int(np.prod(other)) if other else 1
            for off in range(0, len(combos), rows):
                sel = [combos[(off + k) % len(combos)] for k in range(rows)]
                ys = np.array([build(x, s, 1.0 + k) for k, s in enumerate(sel)])  # rows x n
                want = np.array([[analytic(x[i], x[i + 1], yr[i], s[i]) for i in range(n - 1)]
                                 for yr, s in zip(ys, sel)])
                arr = np.moveaxis(ys.reshape(other + [n]), -1, ax) if nd > 1 else ys[0]
                w = np.moveaxis(want.reshape(other + [n - 1]), -1, ax) if nd > 1 else want[0]
                xx = x
                if xfull:
                    sh = [1] * nd
                    sh[ax] = n
                    xx = x.reshape(sh) * np.ones(shape)
                ya = arr * u.Unit(yu) if yu else arr
                xa = xx * u.Unit(xu) if xu else xx
                y_copy, x_copy = np.array(arr), np.array(xx)
                kw = dict(intervals=True) if iv else {}
                got = trapz_loglog(ya, xa, axis=axis, **kw) if axis != -1 or off % 2 else trapz_loglog(ya, xa, **kw)
                ck.step()
                ck.state((it, off))
                ex = w if iv else w.sum(axis=ax)
                if yu or xu:
                    gv = got.to((u.Unit(yu) if yu else 1) * (u.Unit(xu) if xu else u.dimensionless_unscaled)).value
                else:
                    gv = np.asarray(got)
                    if isinstance(got, u.Quantity) and got.unit != u.dimensionless_unscaled:
                        raise Violation("unit %s for plain numbers" % got.unit)
                if np.shape(gv) != np.shape(ex) or not np.allclose(gv, ex, rtol=1e-7, atol=0):
                    raise Violation("axis %s of %s: %s instead of %s" % (axis, shape, gv, ex))
                if not np.array_equal(np.asarray(arr), y_copy) or not np.array_equal(np.asarray(xx), x_copy):
                    raise Violation("the arguments were modified")

        ck.case("layout:%d:%d:%d:%s:%s:%d" % (nd, axis, xfull, yu or "-", xu or "-", iv), go)

    items = []
    for nd in (1, 2, 3):
        for axis in range(-nd, nd):
            for xfull in ((0,) if nd == 1 else (0, 1)):
                for yu, xu in itertools.product(("", "1/TeV", "erg", "cm-2 s-1"), ("", "TeV", "eV")):
                    for iv in (0, 1):
                        items.append((nd, axis, xfull, yu, xu, iv))
    ck.parallel(layout, items)

    # units change nothing but the unit; scaling scales
    def scaling():
        for g in ("dec", "fine", "down"):
            x = np.array(GRIDS[g][:4])
            for idx in itertools.product(IDX[1:9], repeat=3):
                y = np.array(build(x, idx, 1.0))
                a = float(trapz_loglog(y, x))
                ck.step(4)
                ck.state(("scale", g, idx))
                q = trapz_loglog(y / u.TeV, x * u.TeV)
                r = trapz_loglog((y / u.TeV).to("1/erg"), (x * u.TeV).to("erg"))
                k = float(trapz_loglog(1e37 * y, x))
                k2 = float(trapz_loglog(y, 1e5 * x))
                sc = abs(a) * 1e-7
                for nm, v, w in (("unit", float(q.decompose().value), a), ("other unit", float(r.decompose().value), a),
                                 ("scaled y", k / 1e37, a), ("scaled x", k2 / 1e5, a)):
                    if not abs(v - w) <= sc:
                        raise Violation("%s: x %s indices %s: %r instead of %r" % (nm, x, idx, v, w))

    ck.case("scaling", scaling)

    def lists():
        for y, x in (([1, 1, 1], [1, 2, 4]), ((2.0, 2.0), (1.0, 5.0)), ([3, 3], np.array([1, 2]))):
            got = float(trapz_loglog(y, x))
            ck.step()
            ck.state(("list", str(y)))
            want = y[0] * (x[-1] - x[0])
            if abs(got - want) > 1e-12 * want:
                raise Violation("%s over %s: %r" % (y, x, got))

    ck.case("lists", lists)
    ck.assumptions = ["indices closer than 1e-6 to -1 but not within 1e-12 are limited by rounding and not enumerated"]
