"""C18: priors are the logarithm of the density they name."""
TECHNIQUE = ("exhaustive enumeration of prior parameters, values (with their floating point neighbours at every boundary) and "
             "assignments of priors to parameters, on the real functions and the real posterior; oracle = closed form densities")
NOTE = ("Every prior over a grid of limits/means/widths and of values including every boundary and its two neighbours, four "
        "number types; log priors of every magnitude from 1e-324 to 1e300 added to the likelihood; all 5^3 assignments of priors to three parameters x all 4^3 (thorough 6^3) parameter vectors in the "
        "posterior, with models that are undefined outside of the support.")

import itertools
import math

import numpy as np
from astropy import units as u
from astropy.table import QTable

from mc import env  # noqa
from mc import tables as T
from mc.harness import Violation
from mc.lik import logposts
from naima.core import log_uniform_prior, normal_prior, uniform_prior

INF = math.inf


def grid(*special):
    v = [-1e30, -7.5, -1.0, -1e-9, -5e-324, 0.0, 5e-324, 1e-9, 0.3, 1.0, 2.0, 11.0, 1e5, 1e30]
    for s in special:
        if s is not None and math.isfinite(s):
            v += [s, np.nextafter(s, -INF), np.nextafter(s, INF)]
    return sorted(set(float(x) for x in v))


def ld_uniform(v, a, b):
    return 0.0 if a <= v <= b else -INF


def ld_normal(v, m, s):
    return -0.5 * ((v - m) / s) ** 2


def ld_loguniform(v, a, b):
    if v <= 0 or v < a or (b is not None and v > b):
        return -INF
    return -math.log(v)


def diffs(got, want, vals, what, rtol=1e-9):
    """Same support and same differences of log density."""
    for g, w, v in zip(got, want, vals):
        if (g == -INF) != (w == -INF) or g != g or g == INF:
            raise Violation("%s at %r is %r, the log density is %r" % (what, v, g, w))
    fin = [(g, w, v) for g, w, v in zip(got, want, vals) if w != -INF]
    if len(fin) < 2:
        return
    # reference point: the value of highest density
    g0, w0, v0 = max(fin, key=lambda x: x[1])
    for g, w, v in fin:
        if abs((g - g0) - (w - w0)) > rtol * (1 + abs(w - w0) + abs(g0)):
            raise Violation("%s: difference between %r and %r is %r, that of the log density %r" % (what, v, v0, g - g0, w - w0))


CASTS = [("float", float), ("float64", np.float64), ("array0", lambda x: np.array(x)), ("longdouble", np.longdouble)]


def run(ck):
    ck.bounds = dict(number_types=len(CASTS))

    def single(name, fn, ld, args, kwargs=None):
        # every way to pass the parameters, every number type
        vals = grid(*args)
        for cname, cast in CASTS:
            vs = vals
            got = [float(fn(cast(v), *args)) for v in vs]
            want = [ld(v, *args) for v in vs]
            ck.step(len(vs))
            for v in vs:
                ck.state((name, args, cname, v))
            diffs(got, want, vs, "%s(v, %s) [%s]" % (name, args, cname), rtol=1e-9)
            for g in got:
                ck.outcome("%.6e" % g)
        ints = [-3, 0, 1, 2, 11]
        diffs([float(fn(v, *args)) for v in ints], [ld(v, *args) for v in ints], ints, "%s(int, %s)" % (name, args))
        n = float(fn(float("nan"), *args))
        if name != "normal" and n != -INF:
            raise Violation("%s(nan) is %r" % (name, n))

    lims = [-INF, -1e3, -2.5, 0.0, 1e-9, 1.0, 3.7, 1e20, INF]
    for a, b in itertools.product(lims, repeat=2):
        if a <= b:
            ck.case("uniform:%s:%s" % (a, b), single, "uniform", uniform_prior, ld_uniform, (a, b))
    ck.case("uniform:int", single, "uniform", uniform_prior, ld_uniform, (1, 11))
    for m in [-1e3, -2.0, 0.0, 0.5, 1.4, 1e6]:
        for s in [1e-3, 0.1, 0.5, 1.0, 2.0, 30.0, 1e8]:
            ck.case("normal:%s:%s" % (m, s), single, "normal", normal_prior, ld_normal, (m, s))
    ck.case("normal:int", single, "normal", normal_prior, ld_normal, (1, 2))
    pos = [0.0, 1e-20, 1e-3, 1.0, 3.7, 1e20]
    for a, b in itertools.product(pos, pos + [None]):
        if b is None or a <= b:
            ck.case("loguniform:%s:%s" % (a, b), single, "loguniform", log_uniform_prior, ld_loguniform, (a, b))

    def defaults():
        vs = grid()
        diffs([log_uniform_prior(v) for v in vs], [ld_loguniform(v, 0, None) for v in vs], vs, "log_uniform_prior(v)")
        diffs([log_uniform_prior(v, 0.3) for v in vs], [ld_loguniform(v, 0.3, None) for v in vs], vs, "log_uniform_prior(v, 0.3)")
        diffs([log_uniform_prior(v, umax=2.0) for v in vs], [ld_loguniform(v, 0, 2.0) for v in vs], vs, "log_uniform_prior(v, umax=2)")
        diffs([log_uniform_prior(v, umax=2.0, umin=1.0) for v in vs], [ld_loguniform(v, 1.0, 2.0) for v in vs], vs, "keywords")
        diffs([uniform_prior(value=v, umax=2.0, umin=0.3) for v in vs], [ld_uniform(v, 0.3, 2.0) for v in vs], vs, "keywords")
        diffs([normal_prior(value=v, sigma=2.0, mean=0.3) for v in vs], [ld_normal(v, 0.3, 2.0) for v in vs], vs, "keywords")

    ck.case("keywords", defaults)

    # the posterior ---------------------------------------------------------------
    e = np.array([1.0, 3.0, 10.0]) * u.TeV
    t = QTable()
    t["energy"] = e
    t["flux"] = np.array([5.0, 1.1, 0.12]) * u.Unit("1/(cm2 s TeV)")
    t["flux_error"] = 0.2 * t["flux"]
    t["ul"] = [False, False, True]
    t.meta["keywords"] = {"cl": {"value": 0.95}}

    def lik(p):
        x = p[0] * np.array([1.0, 3.0, 10.0]) ** -p[1] + p[2]
        r = 0.0
        for i, (f, ul) in enumerate(zip((5.0, 1.1, 0.12), (0, 0, 1))):
            if ul:
                r += math.log(0.05) if x[i] > f else 0.0
            else:
                r -= 0.5 * ((x[i] - f) / (0.2 * f)) ** 2
        return r

    kinds = {
        "u": (lambda v: uniform_prior(v, 0.0, 2.0), lambda v: ld_uniform(v, 0.0, 2.0)),
        "n": (lambda v: normal_prior(v, 1.4, 0.5), lambda v: ld_normal(v, 1.4, 0.5)),
        "l": (lambda v: log_uniform_prior(v, 0.3, 11.0), lambda v: ld_loguniform(v, 0.3, 11.0)),
        "L": (lambda v: log_uniform_prior(v), lambda v: ld_loguniform(v, 0, None)),
        "0": (lambda v: 0.0, lambda v: 0.0),
    }
    vals = [-0.5, 0.0, 0.3, 2.0] if ck.quick else [-0.5, 0.0, 0.3, 1.7, 2.0, 11.5]
    vecs = list(itertools.product(vals, repeat=3))

    def posterior(ck, it):
        ks, outside = it
        key = "posterior:%s:%s" % ("".join(ks), outside)

        def go():
            def prior(p):
                return sum(kinds[k][0](x) for k, x in zip(ks, p))

            def ld(p):
                return sum(kinds[k][1](x) for k, x in zip(ks, p))

            def model(p, data):
                x = data["energy"].to("TeV").value
                y = p[0] * x ** -p[1] + p[2]
                if ld(p) == -INF and outside != "fine":
                    y = y * {"nan": float("nan"), "inf": INF, "neg": -1.0}[outside]
                return y * u.Unit("1/(cm2 s TeV)")

            out = [lp for lp, _ in logposts(t, model, vecs, prior=None if set(ks) == {"0"} else prior, nwalkers=6)]
            ck.step(len(vecs))
            want = [ld(p) + lik(p) if ld(p) != -INF else -INF for p in vecs]
            for p, o in zip(vecs, out):
                ck.state((it, p))
                ck.outcome("%.6e" % o)
            diffs(out, want, vecs, "posterior with priors %s" % (ks,))
            if set(ks) <= {"0", "u"}:
                # the prior is zero there: also the absolute values agree
                for o, w, p in zip(out, want, vecs):
                    if w != -INF and abs(o - w) > 1e-9 * (1 + abs(w)):
                        raise Violation("posterior with priors %s at %s is %r instead of %r" % (ks, p, o, w))
            # the posterior is the sum of prior and likelihood
            for o, p in zip(out, vecs):
                pr = prior(p)
                if pr != -INF and abs(o - (pr + lik(p))) > 1e-9 * (1 + abs(o)):
                    raise Violation("posterior at %s is %r, prior %r, likelihood %r" % (p, o, pr, lik(p)))

        ck.case(key, go)

    # any prior value adds to the likelihood, however small or large the density it stands for ----------------
    mags = [0.0] + [sg * m * 10.0 ** k for sg in (1, -1) for k in range(-12, 13) for m in (1.0, 3.7)] + [-5e-324, -1e-100, -1e100, -1e300]
    lvecs = [(5.0, 1.5, 0.0), (4.0, 1.4, 0.01), (50.0, 1.0, 1.0), (5e3, 0.0, 0.0), (0.0, 1.0, 0.0)]

    def ladder(ptype):
        def model(p, data):
            x = data["energy"].to("TeV").value
            return (p[0] * x ** -p[1] + p[2]) * u.Unit("1/(cm2 s TeV)")

        for m in mags:
            outs = [lp for lp, _ in logposts(t, model, lvecs, prior=lambda p: ptype(m), nwalkers=6)]
            ck.step(len(lvecs))
            for p, o in zip(lvecs, outs):
                ck.state(("ladder", m, p))
                ck.outcome("%.6e" % o)
                w = m + lik(p)
                if not abs(o - w) <= 1e-9 * (1 + abs(w)):
                    raise Violation("posterior at %s with a log prior of %r is %r, the likelihood is %r" % (p, m, o, lik(p)))

    for nm, ty in (("float", float), ("float64", np.float64), ("array0", np.array)):
        ck.case("ladder:" + nm, ladder, ty)

    items = [(ks, o) for ks in itertools.product("unlL0", repeat=3) for o in (("fine", "nan") if ck.quick else
                                                                             ("fine", "nan", "inf", "neg"))]
    ck.parallel(posterior, items)
