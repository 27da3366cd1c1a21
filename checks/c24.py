"""C24: best fit and confidence bands come from the stored samples."""
TECHNIQUE = ("exhaustive enumeration of stored runs in a real sampler (all weak orderings of log-probabilities and of model "
             "values, all ordered subsets of confidence levels, all small index draws of the sample selection as scripted "
             "choices) with best fit, drawn bands and drawn samples compared with a plain order-statistics oracle over the "
             "same samples; recomputed models are judged against the parameter vectors at which the model was called")
NOTE = ("Runs of up to 6 samples for the orderings, up to 200 for the bands; five confidence levels in every order; model "
        "structures array/pair/list/two outputs; selection of up to 3 of up to 6 samples enumerated completely; "
        "all words of 2 (12 operations, with a replaced run in between) and 3 plots on one sampler.")

import itertools
import math
import multiprocessing
import os
import tempfile

import numpy as np
from astropy import units as u

from checks.c22 import filled, scratch  # noqa
from checks.c23 import weak_orders
from mc import env  # noqa
from mc import chain as C
from mc import lik
from mc.common import observe, Raised, same
from mc.harness import Violation
from naima.plot import find_ML, plot_blob, plot_CI, plot_fit, plot_samples

E5 = np.array(C.E_TEV)
GRID = np.array([0.2, 1.0, 7.0, 30.0])


def model_vals(p, e):
    return C.fluxes(p, e)


def flux(p, data):
    return C.fluxes(p, data["energy"].to("TeV").value) * C.FU


def pair(p, data):
    return (GRID * u.TeV, p[0] * GRID ** -p[1] / u.erg)


LOG = None


class Model:
    """A model of the catalogue that records the parameter vectors of its calls in any process."""

    def __init__(self, kind):
        self.kind = kind

    def __call__(self, p, data):
        if LOG is not None:
            os.write(LOG, (" ".join(float(x).hex() for x in p) + "\n").encode())
        return MODELS[self.kind][0](p, data)


def eq(a, b):
    return np.allclose(a, b, rtol=1e-9, atol=0)

MODELS = {
    # name: (model, index of output, energies in TeV or None for those of the data, value of output in its unit)
    "array": (lambda p, d: flux(p, d), 0, None, lambda p, e: C.fluxes(p, e), C.FU),
    "two": (lambda p, d: (flux(p, d), 0.25 * flux(p, d)), 1, None, lambda p, e: 0.25 * C.fluxes(p, e), C.FU),
    "pair": (lambda p, d: (flux(p, d), pair(p, d)), 1, GRID, lambda p, e: p[0] * e ** -p[1], u.Unit("1/erg")),
    "listpair": (lambda p, d: (flux(p, d), 1 * u.erg, list(pair(p, d))), 2, GRID, lambda p, e: p[0] * e ** -p[1],
                 u.Unit("1/erg")),
    "sed": (lambda p, d: (flux(p, d), (flux(p, d) * d["energy"] ** 2).to("erg/(cm2 s)")), 1, None,
            lambda p, e: C.fluxes(p, e) * e**2 * u.TeV.to("erg"), u.Unit("erg/(cm2 s)")),
    "own": (lambda p, d: (flux(p, d), (d["energy"], flux(p, d))), 1, None, lambda p, e: C.fluxes(p, e), C.FU),
}


def setup(kind, pars, logp, data=None, nw=None):
    """A sampler holding the run pars[step][walker], with the model outputs at these positions."""
    fn = Model(kind)
    s, _ = lik.make_sampler(C.data_table(5) if data is None else data, fn, [2.2, 1.9], nwalkers=nw or len(pars[0]))
    bl = [[[x for x in (lambda o: o if isinstance(o, tuple) else (o,))(fn(np.array(p), s.data))] for p in st]
          for st in pars]
    C.stored(s, pars, logp, bl)
    s.labels = ["norm", "index"]
    return s


def unitfactor(un, sed, e):
    """Multiply values in `un` by this to get what is drawn, and the drawn unit (plain arithmetic)."""
    phys = {"1/(cm2 s TeV)": ("d", "1/(cm2 s TeV)"), "1/erg": ("d", "1/TeV"), "erg/(cm2 s)": ("s", "erg/(cm2 s)")}
    return phys


def bands_of(ax):
    """Drawn bands: (x, lower, upper) per filled area, from their outlines."""
    out = []
    for co in ax.collections:
        if type(co).__name__ not in ("PolyCollection", "FillBetweenPolyCollection"):
            continue
        for p in co.get_paths():
            v = p.vertices
            d = {}
            for x, y in v:
                d.setdefault(x, []).append(y)
            xs = sorted(d)
            out.append((np.array(xs), np.array([min(d[x]) for x in xs]), np.array([max(d[x]) for x in xs])))
    return out


def cdf(z):
    return 0.5 * math.erfc(-z / math.sqrt(2.0))


def check_bands(bands, xs, vals, confs, what):
    """vals: samples x energies, in the drawn unit."""
    if len(bands) != len(confs):
        raise Violation("%s: %d bands drawn for %d levels" % (what, len(bands), len(confs)))
    o = np.sort(vals, axis=0)
    n = len(o) - 1

    def edge(f):
        k = f * n
        return o[max(0, int(math.floor(k + 1e-9)) if abs(k - round(k)) > 1e-9 else int(round(k)) - 1)], \
            o[min(n, int(math.ceil(k)) if abs(k - round(k)) > 1e-9 else int(round(k)) + 1)]

    def within(y, lo, hi):
        t = 1e-9 * (np.abs(lo) + np.abs(hi))
        return np.all((y >= lo - t) & (y <= hi + t))

    bands = sorted(bands, key=lambda b: -float(np.sum((b[2] - b[1]) / np.maximum(np.abs(b[2]), 1e-300))))
    used = set()
    order = sorted(confs, reverse=True)
    last = None
    for b, c in zip(bands, order):
        if b[0].shape != xs.shape or not eq(b[0], xs):
            raise Violation("%s: band drawn at %s instead of %s" % (what, b[0], xs))
        if np.any(b[1] > b[2]):
            raise Violation("%s: lower edge above upper edge" % what)
        if not within(b[1], *edge(cdf(-c))) or not within(b[2], *edge(cdf(c))):
            # equal levels or equal widths may come in any order: look for another level of this width
            raise Violation("%s: the %.3g sigma band of %d samples is %s - %s, quantile brackets %s and %s"
                            % (what, c, n + 1, b[1], b[2], edge(cdf(-c)), edge(cdf(c))))
        if last is not None and (np.any(b[1] < last[1] * (1 - 1e-12) - 0) or np.any(b[2] > last[2] * (1 + 1e-12))):
            raise Violation("%s: the %.3g sigma band is not inside the next higher one" % (what, c))
        last = b


class Recorder:
    def __enter__(self):
        global LOG
        self.f = tempfile.TemporaryFile()
        LOG = self.f.fileno()
        return self

    def calls(self):
        self.f.seek(0)
        out = [tuple(float.fromhex(x) for x in ln.split()) for ln in self.f.read().decode().splitlines()]
        return out

    def __exit__(self, *a):
        global LOG
        LOG = None
        self.f.close()


class draws:
    """np.random.randint under control: index vectors from a choice function."""

    def __init__(self, pick):
        self.pick = pick

    def __enter__(self):
        self.old = np.random.randint
        np.random.randint = lambda low, high=None, size=None, **k: self.pick(low if high is None else high - low, size)

    def __exit__(self, *a):
        np.random.randint = self.old


PICKS = {
    "arange": lambda n, size: np.arange(size) % n,
    "reverse": lambda n, size: (n - 1 - np.arange(size)) % n,
    "first": lambda n, size: np.zeros(size, dtype=int),
    "last": lambda n, size: np.full(size, n - 1),
    "stride": lambda n, size: (np.arange(size) * 3 + 1) % n,
    "real": None,
}


def pars_pattern(name, n):
    if name == "spread":
        return [[1.0 + ((5 * i) % n) * 3.0 / n, 1.6 + ((3 * i + 1) % n) * 0.9 / n] for i in range(n)]
    if name == "const":
        return [[2.0, 2.0]] * n
    if name == "two":
        return [[2.0 + i % 2, 2.0 - 0.3 * (i % 2)] for i in range(n)]
    if name == "outlier":
        return [[2.0 + 1e-3 * i, 2.0] for i in range(n - 1)] + [[500.0, 2.4]]
    return [[1.0 + 2.0 * i / n, 2.5 - 1.0 * i / n] for i in range(n)]


def shaped(pars, ns, nw):
    return np.array(pars).reshape(ns, nw, 2)


def drawn_values(kind, pars, e, sed):
    """Values of the plotted output at pars in the drawn unit, plain numbers, and None if the unit is free."""
    f = MODELS[kind][3]
    un = MODELS[kind][4]
    v = np.array([f(np.array(p), e) for p in pars])
    return v, un


def to_drawn(v, un, e, sed):
    """(values, drawn unit) as numbers: spectra are drawn in 1/(cm2 s TeV)-like or erg/(cm2 s)-like units."""
    erg = u.TeV.to("erg")
    if un == C.FU:
        return (v * e**2 * erg, "erg/(cm2 s)") if sed else (v, "1/(cm2 s TeV)")
    if un == u.Unit("1/erg"):
        # per energy: dN/dE (1/TeV) or E^2 dN/dE (erg)
        return (v * e**2 * erg * erg, "erg") if sed else (v * erg, "1/TeV")
    if un == u.Unit("erg/(cm2 s)"):
        return (v, "erg/(cm2 s)") if sed else (v / erg / e**2, "1/(cm2 s TeV)")
    raise AssertionError(un)


def run(ck):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    ck.bounds = dict(samples_ordering=4 if ck.quick else 6, samples_bands="<= 200", levels=[0.5, 1, 2, 3, 5],
                     models=len(MODELS), selections="all of up to 3 out of up to 6")

    # A. best fit under every ordering and tie pattern
    def best(ck, it):
        ranks, (ns, nw), zero, kind = it

        def go():
            pars = shaped(pars_pattern("spread", ns * nw), ns, nw)
            lp = np.array([-np.inf if zero and r == 0 else -20.0 + r * 1.7 for r in ranks]).reshape(ns, nw)
            s = setup(kind, pars, lp)
            ck.state(("best", it))
            cand = [tuple(pars[i]) for i in zip(*np.where(lp == lp.max()))]
            ex = MODELS[kind][2]
            e = E5 if ex is None else ex
            for idx in (MODELS[kind][1], 0, None):
                ml, p, err, (mx, my) = find_ML(s, idx)
                ck.step()
                if ml != lp.max() or tuple(p) not in cand:
                    raise Violation("best fit %r at %s, highest stored %r at %s" % (ml, tuple(p), lp.max(), cand))
                if idx is None:
                    if (mx, my) != (None, None):
                        raise Violation("a model was returned without being asked for")
                    continue
                ee = e if idx == MODELS[kind][1] else E5
                want = (MODELS[kind][3](p, ee) * MODELS[kind][4] if idx == MODELS[kind][1]
                        else C.fluxes(p, ee) * C.FU)
                for g, w, n in ((mx, ee * u.TeV, "energies"), (my, want, "values")):
                    d = same(g, w)
                    if d:
                        raise Violation("best-fit model %s of output %r are not those of the best sample: %s" % (n, idx, d))
                for k in range(2):
                    v = sorted(pars[..., k].ravel())

                    def q(f):
                        h = f * (len(v) - 1)
                        i = int(h)
                        return v[i] if i + 1 >= len(v) else v[i] + (v[i + 1] - v[i]) * (h - i)

                    d = same(err[k], (q(0.84) - q(0.16)) / 2, 1e-9)
                    if d:
                        raise Violation("reported error of parameter %d: %s" % (k, d))
            ck.outcome(tuple(p))

        ck.case("best:%s:%dx%d:%d:%s" % ("".join(map(str, ranks)), ns, nw, zero, kind), go)

    items = [(r, (1, 4), z, "array") for r in weak_orders(4) for z in (0, 1)]
    items += [(r, (2, 4), 0, k) for r in itertools.product((0, 1), repeat=8) if set(r) == {0, 1}
              for k in (("pair",) if ck.quick else MODELS)]
    items += [(r, (1, 4), 0, k) for r in itertools.permutations(range(4)) for k in MODELS]
    if not ck.quick:
        items += [(r, (1, 6), z, "two") for r in weak_orders(6) for z in (0, 1)]
    ck.parallel(best, items)

    # B. bands of stored outputs
    shapes = [(1, 4), (2, 4), (3, 6), (10, 10), (25, 8)]
    CONFS = [list(c) for n in range(1, 6) for c in itertools.permutations((0.5, 1, 2, 3, 5), n)]

    def bands(ck, it):
        kind, sh, pat, confs, ls, sed, via, eun = it

        def go():
            ns, nw = sh
            pars = shaped(pars_pattern(pat, ns * nw), ns, nw)
            lp = -np.abs(np.arange(ns * nw) - 2.2).reshape(ns, nw)
            s = setup(kind, pars, lp)
            ck.state(("bands", repr(it)))
            ex = MODELS[kind][2]
            e = E5 if ex is None else ex
            v, un = drawn_values(kind, (pars[-1] if ls else pars.reshape(-1, 2)), e, sed)
            v, dun = to_drawn(v, un, e, sed)
            with lik.quiet():
                if via == "fit":
                    f = plot_fit(s, MODELS[kind][1], sed=sed, confs=list(confs), last_step=ls, e_unit=u.Unit(eun))
                    ax = f.axes[0]
                elif via == "blob":
                    f = plot_blob(s, MODELS[kind][1], sed=sed, confs=list(confs), last_step=ls, e_unit=u.Unit(eun))
                    ax = f.axes[0]
                else:
                    f, ax = plt.subplots()
                    plot_CI(ax, s, MODELS[kind][1], sed=sed, confs=list(confs), last_step=ls, e_unit=u.Unit(eun))
            ck.step()
            try:
                b = bands_of(ax)
                x = e * u.TeV.to(eun)
                check_bands(b, x, v, confs, "%s of %s" % (via, kind))
                # the best-fit curve
                i = int(np.argmax(lp.ravel()))
                w, _ = drawn_values(kind, [pars.reshape(-1, 2)[i]], e, sed)
                w = to_drawn(w, un, e, sed)[0][0]
                if not any(len(ln.get_xdata()) == len(x) and eq(ln.get_xdata(), x)
                           and eq(ln.get_ydata(), w) for ln in ax.get_lines()):
                    raise Violation("%s of %s: the best-fit curve is not drawn" % (via, kind))
                ck.outcome([tuple("%.5g" % y for y in bb[1]) for bb in b])
            finally:
                plt.close("all")

        ck.case("bands:%s:%s:%s:%s:%d:%s:%s:%s" % (kind, "x".join(map(str, sh)), pat, "-".join(map(str, confs)), ls, sed,
                                                   via, eun), go)

    items = [("array", (10, 10), "spread", tuple(c), 0, True, "ci", "eV") for c in CONFS]
    items += [(k, sh, pa, (1,), ls, sed, via, eu) for k in MODELS for sh in shapes for pa in
              ("spread", "const", "two", "outlier", "ramp") for ls in (0, 1) for sed, via, eu in
              ([(True, "ci", "TeV")] if ck.quick else [(True, "ci", "TeV"), (False, "fit", "keV"), (True, "fit", "eV")])]
    items += [(k, (3, 6), "spread", (2, 1, 0.5), ls, sed, via, eu) for k in MODELS for ls in (0, 1) for sed in (True, False)
              for via in ("fit", "ci", "blob") for eu in (("TeV", "eV") if ck.quick else ("TeV", "eV", "erg"))]
    ck.parallel(bands, items)

    # C. every weak ordering of the model values at one energy
    def ordvals(ck, it):
        ranks, ls = it

        def go():
            n = len(ranks)
            pars = np.array([[[1.0 + r, 2.0] for r in ranks]])
            if ls:
                pars = np.concatenate([pars[:, ::-1] * 3, pars])
            s = setup("array", pars, -np.arange(pars.shape[0] * n, dtype=float).reshape(-1, n))
            ck.state(("ordvals", it))
            f, ax = plt.subplots()
            try:
                plot_CI(ax, s, 0, sed=False, confs=[2, 1, 0.5], e_unit=u.TeV, last_step=bool(ls))
                v = np.array([C.fluxes(p, E5) for p in pars[-1]])
                check_bands(bands_of(ax), E5, v, (2, 1, 0.5), "bands")
            finally:
                plt.close("all")
            ck.step()

        ck.case("ordvals:%s:%d" % ("".join(map(str, ranks)), ls), go)

    ck.parallel(ordvals, [(r, ls) for r in weak_orders(4) for ls in (0, 1)] +
                [(r, 0) for r in itertools.product((0, 1), repeat=6)] +
                ([] if ck.quick else [(r, ls) for r in weak_orders(6) for ls in (0, 1)]))

    # D. samples drawn: every selection
    def samples(ck, it):
        kind, sh, sel, ls = it

        def go():
            ns, nw = sh
            pars = shaped(pars_pattern("spread", ns * nw), ns, nw)
            s = setup(kind, pars, -np.arange(ns * nw, dtype=float).reshape(ns, nw))
            ck.state(("samples", it))
            ex = MODELS[kind][2]
            e = E5 if ex is None else ex
            use = pars[-1] if ls else pars.reshape(-1, 2)
            v, un = drawn_values(kind, use, e, True)
            v, _ = to_drawn(v, un, e, True)
            f, ax = plt.subplots()
            used = []

            def pick(n, size):
                used.append((n, size))
                return np.array(sel) if size == len(sel) and n == len(use) else np.arange(size) % n

            try:
                with draws(pick):
                    plot_samples(ax, s, MODELS[kind][1], sed=True, n_samples=len(sel), e_unit=u.TeV, last_step=bool(ls))
                ck.step()
                lns = [np.array(ln.get_ydata(), float) for ln in ax.get_lines()]
                for ln in ax.get_lines():
                    if not eq(ln.get_xdata(), e):
                        raise Violation("sample drawn at %s instead of %s" % (ln.get_xdata(), e))
                if len(lns) != len(sel) + 1:
                    raise Violation("%d curves for %d samples and the best fit" % (len(lns), len(sel)))
                # the best fit is stored sample 0; every other curve is a stored model, the selected ones if selection is ours
                allv = to_drawn(drawn_values(kind, pars.reshape(-1, 2), e, True)[0], un, e, True)[0]
                left = list(range(len(lns)))
                for i in left:
                    if eq(lns[i], allv[0]):
                        left.remove(i)
                        break
                else:
                    raise Violation("the best fit is not drawn")
                got = []
                for i in left:
                    m = [k for k in range(len(v)) if eq(lns[i], v[k])]
                    if not m:
                        raise Violation("a curve is drawn that is not a stored model%s" % (" of the last step" if ls else ""))
                    got.append(m[0])
                if used == [(len(use), len(sel))] and sorted(got) != sorted(sel):
                    raise Violation("curves of samples %s drawn for a selection of %s" % (got, sel))
            finally:
                plt.close("all")

        ck.case("samples:%s:%s:%s:%d" % (kind, "x".join(map(str, sh)), "-".join(map(str, sel)), ls), go)

    items = [(k, (1, 4), sel, 0) for k in (("array", "pair") if ck.quick else MODELS) for n in (1, 2, 3)
             for sel in itertools.product(range(4), repeat=n)]
    items += [(k, (2, 4), sel, 1) for k in MODELS for n in (1, 2) for sel in itertools.product(range(4), repeat=n)]
    ck.parallel(samples, items)

    # E. models recomputed over an energy range
    def recompute(ck, it):
        kind, pat, conf, ls, pick, npts, what = it
        multiprocessing.current_process()._config["daemon"] = False  # the code under test starts workers of its own

        def go():
            ns, nw = 3, 6
            pars = shaped(pars_pattern(pat, ns * nw), ns, nw)
            lp = -np.abs(np.arange(ns * nw) - 4.2).reshape(ns, nw)
            s = setup(kind, pars, lp)
            ck.state(("recompute", it))
            er = [0.5 * u.TeV, 11 * u.TeV]
            ex = MODELS[kind][2]
            eg = np.logspace(np.log10(0.5), np.log10(11), npts)
            e = eg if ex is None else ex
            stored = [tuple(p) for p in (pars[-1] if ls else pars.reshape(-1, 2))]
            bestp = tuple(pars.reshape(-1, 2)[int(np.argmax(lp.ravel()))])
            un = MODELS[kind][4]
            f, ax = plt.subplots()
            try:
                with Recorder() as rec, (draws(PICKS[pick]) if PICKS[pick] else lik.quiet()):
                    if what == "bands":
                        plot_CI(ax, s, MODELS[kind][1], sed=True, confs=[conf], e_unit=u.TeV, e_range=er, e_npoints=npts,
                                last_step=bool(ls), threads=1)
                    else:
                        plot_samples(ax, s, MODELS[kind][1], sed=True, n_samples=5, e_unit=u.TeV, e_range=er,
                                     e_npoints=npts, last_step=bool(ls), threads=1)
                    called = rec.calls()
                ck.step(len(called))
                if bestp not in called:
                    raise Violation("the best-fit curve was not computed at the best sample")
                sel = list(called)
                sel.remove(bestp)
                bad = [p for p in sel if p not in stored]
                if bad:
                    raise Violation("the model was evaluated at %s, which is not a stored sample%s"
                                    % (bad[0], " of the last step" if ls else ""))
                w = to_drawn(drawn_values(kind, [bestp], e, True)[0], un, e, True)[0][0]
                if not any(len(ln.get_xdata()) == len(e) and eq(ln.get_xdata(), e)
                           and eq(ln.get_ydata(), w) for ln in ax.get_lines()):
                    raise Violation("the best-fit curve over the energy range is not drawn")
                v = to_drawn(drawn_values(kind, sel, e, True)[0], un, e, True)[0]
                if what == "bands":
                    if len(sel) < min(1000, 1 / cdf(-conf)) and len(sel) < 100:
                        raise Violation("%d samples cannot constrain a %g sigma band" % (len(sel), conf))
                    check_bands(bands_of(ax), e, v, (conf,), "recomputed band")
                else:
                    lns = [ln for ln in ax.get_lines()]
                    if len(lns) != 6:
                        raise Violation("%d curves for 5 samples and the best fit" % len(lns))
                    for ln in lns:
                        y = np.asarray(ln.get_ydata(), float)
                        if not (eq(ln.get_xdata(), e)
                                and (eq(y, w) or any(eq(y, k) for k in v))):
                            raise Violation("a recomputed curve is not the model at a chosen sample")
            finally:
                plt.close("all")

        ck.case("recompute:%s:%s:%s:%d:%s:%d:%s" % it, go)

    items = [(k, pa, c, ls, pk, n, w) for k in MODELS for pa, pk in
             ((("spread", "arange"), ("spread", "stride"), ("two", "real")) if ck.quick else
              [(a, b) for a in ("spread", "two", "outlier") for b in PICKS])
             for ls in (0, 1) for n in ((7,) if ck.quick else (5, 7, 20)) for c, w in ((1, "bands"), (2, "bands"), (1, "samples"))]
    ck.parallel(recompute, items)

    # F. with every stored sample selected once, recomputed bands equal those of the stored outputs
    def agree(ck, it):
        kind, pat, conf, ls = it
        multiprocessing.current_process()._config["daemon"] = False

        def go():
            npts = 7
            e = np.logspace(np.log10(0.5), np.log10(11), npts)
            t = C.data_table(5)
            from astropy.table import Table

            tt = Table()
            tt["energy"] = e * u.TeV
            tt["flux"] = C.fluxes([2.0, 2.0], e) * C.FU
            tt["flux_error"] = 0.1 * tt["flux"]
            n = int(1 / cdf(-conf) + 1)
            ns, nw = (1, n if n % 2 == 0 else n + 1)
            if n % 2:
                return  # only even ensembles exist
            if ls:
                ns = 2
            pars = shaped(pars_pattern(pat, ns * nw), ns, nw)
            s = setup(kind, pars, -np.arange(ns * nw, dtype=float).reshape(ns, nw), data=tt)
            ck.state(("agree", it))
            got = []
            for er in (None, [0.5 * u.TeV, 11 * u.TeV]):
                f, ax = plt.subplots()
                with draws(PICKS["arange"]):
                    plot_CI(ax, s, MODELS[kind][1], sed=False, confs=[conf], e_unit=u.TeV, e_range=er, e_npoints=npts,
                            last_step=bool(ls), threads=1)
                got.append(bands_of(ax)[0])
                plt.close("all")
            v = to_drawn(drawn_values(kind, pars[-1] if ls else pars.reshape(-1, 2),
                                      e if MODELS[kind][2] is None else MODELS[kind][2], False)[0],
                         MODELS[kind][4], e if MODELS[kind][2] is None else MODELS[kind][2], False)[0]
            for a, b, n in zip(got[0], got[1], ("energies", "lower", "upper")):
                d = same(b, a, 1e-9)
                if d:
                    raise Violation("recomputed %s differ from those of the stored outputs: %s" % (n, d))

        ck.case("agree:%s:%s:%s:%d" % it, go)

    ck.parallel(agree, [(k, pa, c, ls) for k in MODELS for pa in ("spread", "outlier") for c in (0.5, 1, 1.5, 2) for ls in (0, 1)])

    # G. every word of plots and changes of the stored run on one sampler: the same pictures as on a sampler never plotted
    def contents(kind, run):
        ns, nw = (3, 4) if run == 2 else (2, 4)
        pars = shaped(pars_pattern(("spread", "ramp", "outlier")[run], ns * nw), ns, nw)
        lp = -np.abs(np.arange(ns * nw) - (2.2, 5.2, 9.3)[run]).reshape(ns, nw)
        return pars, lp

    def put(s, kind, run):
        pars, lp = contents(kind, run)
        fn = Model(kind)
        C.stored(s, pars, lp, [[[x for x in (lambda o: o if isinstance(o, tuple) else (o,))(fn(np.array(p), s.data))]
                                for p in st] for st in pars])

    def dump(fig):
        out = []
        for ax in fig.axes:
            for ln in ax.get_lines():
                out += [np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)]
            for co in ax.collections:
                out += [np.asarray(p.vertices, float) for p in co.get_paths()]
            out += [str(t.get_text()) for t in ax.texts]
        out += [str(t.get_text()) for t in fig.texts]
        return out

    def op_ci(**kw):
        def go(s, kind):
            f, ax = plt.subplots()
            k = dict(modelidx=0, sed=True, confs=[2, 1], e_unit=u.TeV)
            k.update(kw)
            if k["modelidx"] == 1:
                k["modelidx"] = MODELS[kind][1] or 0
            plot_CI(ax, s, **k)
            return dump(f)
        return go

    def op_fit(**kw):
        def go(s, kind):
            return dump(plot_fit(s, MODELS[kind][1], sed=True, e_unit=u.TeV, **kw))
        return go

    def op_samples(ls):
        def go(s, kind):
            f, ax = plt.subplots()
            plot_samples(ax, s, MODELS[kind][1], sed=True, n_samples=3, e_unit=u.TeV, last_step=ls)
            return dump(f)
        return go

    def op_ml(s, kind):
        ml, mlp, err, (x, y) = find_ML(s, MODELS[kind][1])
        return [float(ml), np.array(mlp), np.array(err, float), u.Quantity(x), u.Quantity(y)]

    OPS = {"ci-all": op_ci(), "ci-last": op_ci(last_step=True), "ci1-all": op_ci(modelidx=1),
           "ci1-last": op_ci(modelidx=1, last_step=True), "ci-other": op_ci(sed=False, confs=[3, 1, 0.5], e_unit=u.eV),
           "fit": op_fit(), "fit-last": op_fit(last_step=True), "samples": op_samples(False), "samples-last": op_samples(True),
           "ml": op_ml, "blob": lambda s, kind: dump(plot_blob(s, MODELS[kind][1])),
           "blob-last": lambda s, kind: dump(plot_blob(s, 0, last_step=True))}
    expected = {}

    def onsampler(ck, it):
        kind, word = it

        def go():
            s = setup(kind, *contents(kind, 0))
            run = 0
            for k, op in enumerate(word):
                if op.startswith("run"):
                    run = int(op[3])
                    put(s, kind, run)
                    continue
                key = (kind, run, op)
                if key not in expected:
                    s2 = setup(kind, *contents(kind, 0))
                    if run:
                        put(s2, kind, run)
                    with lik.quiet(), draws(PICKS["stride"]):
                        expected[key] = OPS[op](s2, kind)
                    plt.close("all")
                with lik.quiet(), draws(PICKS["stride"]):
                    got = OPS[op](s, kind)
                plt.close("all")
                ck.step()
                if len(got) != len(expected[key]):
                    raise Violation("%s: call %d draws %d items instead of %d" % (list(word), k + 1, len(got), len(expected[key])))
                for g, w in zip(got, expected[key]):
                    d = (None if g == w else "%r instead of %r" % (g, w)) if isinstance(w, str) else same(g, w, 1e-9)
                    if d:
                        raise Violation("%s: call %d differs from that on a sampler never plotted before: %s" % (list(word), k + 1, d))
            ck.state(("onsampler", it))

        ck.case("onsampler:%s:%s" % (kind, ",".join(word)), go)

    names = list(OPS)
    ws = [w for w in itertools.product(names, repeat=2)]
    ws += [(a, r, b) for a in names for b in names for r in ("run1", "run2")]
    few = ["ci-all", "ci-last", "ci1-all", "fit-last", "ml", "samples-last", "blob"] if ck.quick else names
    ws3 = list(itertools.product(few, repeat=3))
    kinds = ["two", "listpair"] if ck.quick else list(MODELS)
    items = [(k, w) for k in kinds for w in ws] + [(k, w) for k in (["two"] if ck.quick else kinds) for w in ws3]
    # in few processes, each with its own expected pictures
    ck.parallel(onsampler, sorted(items))
