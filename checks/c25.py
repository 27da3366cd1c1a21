"""C25: plots show the data and model values they are given."""
TECHNIQUE = ("exhaustive enumeration of data tables (all upper-limit, group and error patterns of small tables, units, "
             "spectrum kinds) and plot options with every drawn artist compared with a plain conversion of the rows, and "
             "exploration of all histories of plot calls up to a depth, each call compared with the same call in a fresh "
             "process, with injected failures; plotting configuration monitored after every operation")
NOTE = ("Tables of up to 4 rows with all flag patterns; histories of 2 calls over 20 operations (3 in the thorough tier); one "
        "injected failure per call and failing callee.")

import contextlib
import itertools
import multiprocessing

import numpy as np
from astropy import units as u
from astropy.table import Table

from checks import c24
from checks.c22 import scratch
from mc import env  # noqa
from mc import chain as C
from mc import lik
from mc.common import fresh_process_map, observe, Raised
from mc.harness import Violation, histories
from naima import save_diagnostic_plots
from naima.plot import plot_blob, plot_chain, plot_corner, plot_data, plot_fit
from naima.utils import validate_data_table

ERG = 1.602176634  # erg per TeV

# ------------------------------------------------------------------ data
E4 = np.array([0.5, 1.3, 4.0, 11.0])
F4 = np.array([7.5e-12, 1.4e-12, 1.3e-13, 1.1e-14])
ERRS = {"small": (0.1, 0.2), "sym": (0.15, 0.15), "over": (1.5, 0.3), "exact": (1.0, 1.0), "mixed": None}


def table(n=4, ul=(0, 0, 0, 0), groups=None, errs="small", eunit="TeV", sed=False, eerr=None, sign=1, funit=None):
    t = Table()
    e = E4[:n] * u.TeV
    f = F4[:n] * C.FU
    if ERRS[errs] is None:
        lo = np.array([0.1, 1.2, 0.4, 1.0])[:n] * f
        hi = np.array([0.3, 0.2, 1.4, 0.1])[:n] * f
    else:
        lo, hi = ERRS[errs][0] * f, ERRS[errs][1] * f
    if sign < 0:
        f = f.copy()
        f[n - 1] = -0.4 * f[n - 1]
    if sed:
        un = u.Unit(funit or "erg/(cm2 s)")
        f, lo, hi = [(x * e**2).to(un) for x in (f, lo, hi)]
    elif funit:
        f, lo, hi = [x.to(funit) for x in (f, lo, hi)]
    t["energy"] = e.to(eunit)
    if eerr == "sym":
        t["energy_error"] = (0.2 * e).to(eunit)
    elif eerr == "asym":
        t["energy_error_lo"], t["energy_error_hi"] = (0.1 * e).to(eunit), (0.3 * e).to(eunit)
    t["flux"], t["flux_error_lo"], t["flux_error_hi"] = f, lo, hi
    if any(ul[:n]):
        t["ul"] = list(ul[:n])
        t.meta["keywords"] = {"cl": {"value": 0.95}}
    if groups is not None:
        t["group"] = list(groups[:n])
    return t


def drawn(f, e_tev, kind_sed, sed):
    """Plain numbers: flux in 1/(cm2 s TeV) or erg/(cm2 s) to what is drawn."""
    if kind_sed and not sed:
        return f / e_tev**2 / ERG
    if not kind_sed and sed:
        return f * e_tev**2 * ERG
    return f


def rows_of(data, sed, eunit):
    """Expected artists of every row of validated data."""
    ks = data["flux"].unit.is_equivalent("erg/(cm2 s)")
    fu = "erg/(cm2 s)" if ks else "1/(cm2 s TeV)"
    out = []
    for r in range(len(data["energy"])):
        et = data["energy"][r].to("TeV").value
        k = float((1 * u.TeV).to(eunit).value)
        x, xl, xh = [float(data[c][r].to("TeV").value) * k for c in ("energy", "energy_error_lo", "energy_error_hi")]
        y, yl, yh = [drawn(float(data[c][r].to(fu).value), et, ks, sed) for c in
                     ("flux", "flux_error_lo", "flux_error_hi")]
        out.append(dict(x=x, xl=xl, xh=xh, y=y, yl=yl, yh=yh, ul=bool(data["ul"][r]), g=int(data["group"][r])
                        if "group" in data.keys() else 0, e=et))
    return out


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300


def segments(ax):
    """(horizontal, vertical) error bars drawn."""
    h, v = [], []
    for co in ax.collections:
        if type(co).__name__ != "LineCollection":
            continue
        for s in co.get_segments():
            s = np.asarray(s, float)
            if len(s) != 2:
                raise Violation("error bar of %d points" % len(s))
            (x0, y0), (x1, y1) = s
            if y0 == y1:
                h.append((min(x0, x1), max(x0, x1), y0))
            else:
                v.append((min(y0, y1), max(y0, y1), x0))
    return h, v


def markers(ax):
    pts = []
    for ln in ax.get_lines():
        m = ln.get_marker()
        if m in ("None", None, "", " ") or isinstance(m, int) or m == "_" or m == "|":
            continue
        pts += [(float(x), float(y), m) for x, y in zip(ln.get_xdata(), ln.get_ydata())]
    return pts


def match(got, want, cmp, what):
    left = list(got)
    for w in want:
        for g in left:
            if cmp(g, w):
                left.remove(g)
                break
        else:
            raise Violation("%s %s is not drawn (drawn: %s)" % (what, w, got[:6]))
    if left:
        raise Violation("%s %s is drawn but is none of the data" % (what, left[0]))


def tuplenear(g, w):
    return len(g) == len(w) and all(near(a, b) for a, b in zip(g, w))


def check_data_axis(ax, rows, hf=0.25, what="plot", styles=True):
    h, v = segments(ax)
    match(h, [(r["x"] - r["xl"], r["x"] + r["xh"], r["y"]) for r in rows], tuplenear,
          what + ": energy bar")
    want = []
    for r in rows:
        if r["ul"]:
            want.append((r["y"] * (1 - hf), r["y"], r["x"], False))
        else:
            want.append((r["y"] - r["yl"], r["y"] + r["yh"], r["x"], r["y"] > 0 and r["yl"] >= r["y"]))

    def cmp(g, w):
        # a bar reaching zero or below is drawn down to next to nothing
        low = (g[0] < 1e-3 * abs(w[1])) if w[3] else near(g[0], w[0])
        return low and near(g[1], w[1]) and near(g[2], w[2])

    match(v, want, cmp, what + ": flux bar")
    pts = markers(ax)
    match([p[:2] for p in pts], [(r["x"], r["y"]) for r in rows if not r["ul"]], tuplenear, what + ": point")
    # upper limits: a mark at the value itself, pointing down
    arrows = []
    for ln in ax.get_lines():
        if isinstance(ln.get_marker(), int):
            arrows += [(float(x), float(y)) for x, y in zip(ln.get_xdata(), ln.get_ydata())]
    for r in rows:
        if r["ul"] and not any(near(a[0], r["x"]) and a[1] <= r["y"] * (1 + 1e-9) for a in arrows):
            raise Violation("%s: no arrow for the upper limit at %g" % (what, r["x"]))
    # points of one group share a marker and different groups (of few) differ
    style = {}
    for p in pts if styles else ():
        for r in rows:
            if not r["ul"] and tuplenear(p[:2], (r["x"], r["y"])):
                style.setdefault(r["g"], set()).add(p[2])
    for g, m in style.items():
        if len(m) != 1:
            raise Violation("%s: group %d is drawn with several markers" % (what, g))


def check_labels(ax_x, ax_y, sed, eunit, what, ytype="flux"):
    ex = u.Unit(eunit).to_string("latex_inline")
    ey = (u.Unit("erg/(cm2 s)") if sed else u.Unit("1/(s TeV cm2)")).to_string("latex_inline")
    if ex not in ax_x.get_xlabel():
        raise Violation("%s: energy axis labelled %r for values in %s" % (what, ax_x.get_xlabel(), eunit))
    if ax_y is not None and ey not in ax_y.get_ylabel():
        raise Violation("%s: flux axis labelled %r for values in %s" % (what, ax_y.get_ylabel(), ey))


# ------------------------------------------------------------------ configuration monitor
def config():
    import matplotlib

    return {k: repr(v) for k, v in matplotlib.rcParams.items() if not k.startswith("backend")}


class monitored:
    """The plotting configuration after the block is the one before it."""

    def __enter__(self):
        self.c = config()

    def __exit__(self, *a):
        c = config()
        d = [k for k in c if c[k] != self.c.get(k)]
        if d:
            import matplotlib

            matplotlib.rcdefaults()
            matplotlib.use("Agg")
            raise Violation("plotting configuration %s changed from %s to %s" % (d[0], self.c.get(d[0]), c[d[0]]))


# ------------------------------------------------------------------ drawn figure as data
def picture(fig):
    out = [len(fig.axes)]
    for ax in fig.axes:
        out.append(("ax", ax.get_xscale(), ax.get_yscale(), tuple("%.6e" % x for x in ax.get_xlim() + ax.get_ylim()),
                    ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), str(ax.get_position().bounds)[:40]))
        for ln in ax.get_lines():
            out.append(("line", np.asarray(ln.get_xdata(), float).tolist(), np.asarray(ln.get_ydata(), float).tolist(),
                        str(ln.get_color()), str(ln.get_marker()), ln.get_linewidth(), ln.get_linestyle(),
                        ln.get_markersize(), ln.get_alpha()))
        for co in ax.collections:
            out.append(("coll", type(co).__name__, [p.vertices.tolist() for p in co.get_paths()],
                        np.asarray(co.get_linewidth()).tolist(), np.asarray(co.get_edgecolor()).tolist(),
                        np.asarray(co.get_facecolor()).tolist()))
        for tx in ax.texts:
            out.append(("text", tx.get_text()))
        for pa in ax.patches:
            out.append(("patch", pa.get_path().vertices.tolist(), str(pa.get_facecolor())))
    for tx in fig.texts:
        out.append(("text", tx.get_text()))
    return out


def picture_diff(a, b, path=""):
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return "%s: %d instead of %d parts" % (path, len(a) if hasattr(a, "__len__") else -1, len(b) if hasattr(b, "__len__") else -1)
        for i, (x, y) in enumerate(zip(a, b)):
            d = picture_diff(x, y, (path + "/" + str(x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i))[:80])
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, (float, int)):
        return None if near(a, b, 1e-9) or a != a and b != b else "%s: %r instead of %r" % (path, a, b)
    return None if a == b else "%s: %r instead of %r" % (path, a, b)


# ------------------------------------------------------------------ the operations of the histories
_W = {}


def sampler(kind="two", data=None):
    if (kind, data) not in _W:
        pars = c24.shaped(c24.pars_pattern("spread", 16), 4, 4)
        lp = -np.abs(np.arange(16) - 6.2).reshape(4, 4)
        t = {None: lambda: C.data_table(5), "kev": lambda: C.data_table(5, eunit=u.keV),
             "sed": lambda: C.data_table(5, sed=True)}[data]()
        s = c24.setup(kind, pars, lp, data=t)
        _W[kind, data] = s
    return _W[kind, data]


def fresh_sampler(kind="two", data=None):
    _W.pop((kind, data), None)
    return sampler(kind, data)


ULT = dict(ul=(0, 1, 0, 1))


def op_table():
    import matplotlib.pyplot as plt  # noqa

    t1 = table(**ULT)
    t2 = table(4, groups=(0, 1, 1, 2), ul=(0, 0, 1, 0), eunit="keV")
    return {
        "data": lambda s: plot_data(t1),
        "dataspec": lambda s: plot_data(t1, sed=False, e_unit=u.GeV),
        "datalw": lambda s: plot_data(t1, errorbar_opts={"elinewidth": 7, "ms": 9}),
        "dataul": lambda s: plot_data(t1, ulim_opts={"capsize": 11, "height_fraction": 0.6}),
        "dataullw": lambda s: plot_data(t1, ulim_opts={"capsize": 3}, errorbar_opts={"elinewidth": 4}),
        "groups": lambda s: plot_data(t2),
        "samplerdata": lambda s: plot_data(s),
        "over": lambda s: plot_data(table(errs="over")),
        "fit": lambda s: plot_fit(s, 0, n_samples=4),
        "fitconf": lambda s: plot_fit(s, 0, confs=[1, 3]),
        "fitspec": lambda s: plot_fit(s, 1, confs=[2], sed=False, e_unit=u.keV, ML_info=True),
        "fitlw": lambda s: plot_fit(s, 0, n_samples=2, errorbar_opts={"elinewidth": 6}, ulim_opts={"capsize": 2}),
        "fitml": lambda s: plot_fit(s, 0, n_samples=0, plotresiduals=False, confs=None, plotdata=False, label="ml"),
        "fitdata": lambda s: plot_fit(s, 0, n_samples=0, plotdata=True, plotresiduals=False),
        "chain": lambda s: plot_chain(s, 1),
        "chainall": lambda s: plot_chain(s),
        "chainlast": lambda s: plot_chain(s, 0, last_step=True),
        "corner": lambda s: plot_corner(s),
        "corneropt": lambda s: plot_corner(s, show_ML=False, bins=5),
        "blob": lambda s: plot_blob(s, 1, n_samples=3),
        "diag": diag,
        "diagpdf": diagpdf,
        "bad": lambda s: observe(plot_fit, s, 7),
        "badopt": lambda s: observe(plot_corner, s, nosuchoption=1),
    }


def diag(s):
    with scratch() as d:
        save_diagnostic_plots(str(d / "x"), s, sed=[True, False], blob_labels=["a", "b"], dpi=20)


def diagpdf(s):
    with scratch() as d:
        save_diagnostic_plots(str(d / "x"), s, pdf=True, modelidxs=[0], dpi=20)


def do_op(name):
    """Picture of the figure an operation returns (None if it returns none)."""
    import matplotlib.pyplot as plt

    s = sampler()
    np.random.seed(11)
    with lik.quiet():
        f = op_table()[name](s)
    return picture(f) if hasattr(f, "axes") else None


def run(ck):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    names = list(op_table())
    ck.bounds = dict(rows="<= 4", flag_patterns="all", operations=len(names), history_depth=2 if ck.quick else 3)

    # A. data drawn, product of tables and options
    def datacase(ck, it):
        kw, sed, eun, src, hf = it
        key = "data:%s:%s:%s:%s:%s" % (",".join("%s=%s" % (k, "".join(map(str, v)) if isinstance(v, tuple) else
                                                           str(v).replace(" ", "")) for k, v in kw), sed, eun, src, hf)

        def go():
            t = table(**dict(kw))
            v = validate_data_table(t)
            rows = rows_of(v, sed, eun or dict(kw).get("eunit", "TeV"))
            arg = {"table": t, "valid": v, "list": [t]}[src]
            ck.state(key)
            with monitored(), lik.quiet():
                f = plot_data(arg, sed=sed, e_unit=u.Unit(eun) if eun else None,
                              ulim_opts={} if hf == 0.25 else {"height_fraction": hf})
            ck.step()
            try:
                check_data_axis(f.axes[0], rows, hf)
                check_labels(f.axes[0], f.axes[0], sed, eun or dict(kw).get("eunit", "TeV"), "plot_data")
                if f.axes[0].get_xscale() != "log" or f.axes[0].get_yscale() != "log":
                    raise Violation("axes are not logarithmic")
                f.canvas.draw()
            finally:
                plt.close("all")

        ck.case(key, go)

    def K(**k):
        return tuple(sorted(k.items()))

    items = []
    for n in (1, 2, 4):
        for ul in itertools.product((0, 1), repeat=n):
            for er in ERRS:
                if n < 4 or er in ("small", "mixed") or not ck.quick:
                    items.append((K(n=n, ul=ul, errs=er), True, None, "table", 0.25))
    for gr in itertools.product((0, 1, 7), repeat=3):
        for ul in ((0, 0, 0), (0, 1, 0), (1, 0, 1)):
            items.append((K(n=3, groups=gr, ul=ul), False, None, "table", 0.25))
    for eu in ("TeV", "keV", "erg"):
        for sd in (True, False):
            for sed in (True, False):
                for eun in (None, "eV", "TeV", "J"):
                    for ee in (None, "sym", "asym"):
                        for src in ("table", "valid"):
                            items.append((K(ul=(0, 0, 1, 0), eunit=eu, sed=sd, eerr=ee), sed, eun, src, 0.25))
    for src in ("table", "valid", "list"):
        for hf in (0.25, 0.5, 0.9):
            for gr in (None, (0, 0, 1, 1)):
                items.append((K(ul=(0, 1, 1, 0), groups=gr), True, "GeV", src, hf))
    for ul in ((0, 0, 0, 0), (0, 1, 0, 0)):
        for er in ERRS:
            for sed in (True, False):
                items.append((K(ul=ul, errs=er, sign=-1), sed, None, "table", 0.25))
    for fu, sd in (("1/(m2 s GeV)", False), ("1/(cm2 s erg)", False), ("keV/(m2 s)", True), ("W/m2", True)):
        for sed in (True, False):
            items.append((K(ul=(0, 0, 0, 1), sed=sd, funit=fu), sed, None, "table", 0.25))
    ck.parallel(datacase, items)

    # B. fits: data, curve and residuals
    def fitcase(ck, it):
        kind, ul, groups, errs, eunit, dsed, sed, eun, mode, idx = it

        def go():
            t = table(4, ul, groups, errs, eunit, dsed)
            pars = c24.shaped(c24.pars_pattern("spread", 8), 2, 4)
            lp = -np.abs(np.arange(8) - 4.2).reshape(2, 4)
            if dsed and not hasattr(c24.MODELS[kind][0](np.array([1, 2.0]), {"energy": [1, 2] * u.TeV}), "unit"):
                pass
            s = c24.setup(kind, pars, lp, data=t)
            v = s.data
            rows = rows_of(v, sed, eun or eunit)
            ck.state(it)
            kw = dict(sed=sed, e_unit=u.Unit(eun) if eun else None)
            kw.update({"samples": dict(n_samples=3), "conf": dict(confs=[1]), "ml": dict(n_samples=0, plotresiduals=True),
                       "nores": dict(n_samples=2, plotresiduals=False), "forced": dict(n_samples=2, plotdata=True,
                                                                                      plotresiduals=True),
                       "nodata": dict(n_samples=2, plotdata=False)}[mode])
            with monitored(), lik.quiet():
                f = plot_fit(s, idx, **kw)
            ck.step()
            try:
                f.canvas.draw()
                withdata = mode != "nodata"
                res = mode not in ("nores", "nodata")
                if len(f.axes) != (2 if res else 1):
                    raise Violation("%d axes" % len(f.axes))
                if withdata:
                    # sample curves have no markers; bands are filled areas
                    check_data_axis(f.axes[0], rows)
                check_labels(f.axes[-1], f.axes[0] if withdata else None, sed, eun or eunit, "plot_fit")
                # residuals
                best = pars.reshape(-1, 2)[int(np.argmax(lp.ravel()))]
                if idx == c24.MODELS[kind][1]:
                    ex = c24.MODELS[kind][2]
                    vals = lambda e: c24.to_drawn(np.array([c24.MODELS[kind][3](best, e)]), c24.MODELS[kind][4], e, sed)[0][0]
                else:
                    vals = lambda e: c24.to_drawn(np.array([C.fluxes(best, e)]), C.FU, e, sed)[0][0]
                e = np.array([r["e"] for r in rows])
                if not any(len(ln.get_xdata()) == len(e) and np.allclose(ln.get_ydata(), vals(e), rtol=1e-6, atol=0)
                           for ln in f.axes[0].get_lines()):
                    raise Violation("the best-fit curve is not drawn")
                if res:
                    ax = f.axes[1]
                    m = vals(e)
                    want = [(r["x"], (r["y"] - mm) / (0.5 * (r["yl"] + r["yh"]))) for r, mm in zip(rows, m) if not r["ul"]]
                    got = [p[:2] for p in markers(ax)]
                    match(got, want, lambda g, w: near(g[0], w[0]) and abs(g[1] - w[1]) < 1e-6 * (1 + abs(w[1])), "residual")
                    h, vv = segments(ax)
                    match(vv, [(w[1] - 1, w[1] + 1, w[0]) for w in want],
                          lambda g, w: near(g[2], w[2]) and all(abs(a - b) < 1e-6 * (1 + abs(b)) for a, b in zip(g[:2], w[:2])),
                          "residual bar")
                    match([x[:2] for x in h], [(r["x"] - r["xl"], r["x"] + r["xh"]) for r in rows if not r["ul"]], tuplenear,
                          "residual energy bar")
                    ck.outcome(["%.5g" % w[1] for w in want])
            finally:
                plt.close("all")

        ck.case("fit:%s:%s:%s:%s:%s:%s:%s:%s:%s:%d" % (kind, "".join(map(str, ul)), "".join(map(str, groups or "-")), errs,
                                                       eunit, dsed, sed, eun, mode, idx), go)

    modes = ("samples", "conf", "ml", "nores", "forced", "nodata")
    items = [("array", ul, gr, er, "TeV", False, True, None, "samples", 0) for ul in itertools.product((0, 1), repeat=4)
             if not all(ul) for gr in (None, (0, 1, 0, 1)) for er in ("small", "mixed")]
    # group numbers need not be consecutive, begin at zero or stay below the number of colours
    gw = (list(itertools.product((0, 1, 3, 12), repeat=4)) if not ck.quick else
          [w for w in itertools.product((0, 1, 3, 12), repeat=4) if len(set(w)) == 2 or w == (12, 3, 1, 0)][::2]
          + [(g,) * 4 for g in (1, 3, 12)])
    items += [("array", (0, 0, 0, 0), gr, "small", "TeV", False, True, None, "ml", 0) for gr in gw]
    items += [("two", (0, 0, 1, 0), gr, "mixed", eu, False, sed, eun, mo, 1 if mo != "conf" else 0)
              for gr in (None, (0, 0, 1, 2)) for eu in ("TeV", "keV", "erg") for sed in (True, False)
              for eun in (None, "eV", "J") for mo in modes]
    items += [("sed", (0, 1, 0, 0), (1, 1, 0, 0), "small", eu, ds, sed, eun, mo, 1) for eu in ("TeV", "keV")
              for ds in (False, True) for sed in (True, False) for eun in (None, "GeV") for mo in ("samples", "forced", "ml")
              if not ds]
    items += [("own", (0, 1, 0, 0), None, "small", eu, False, sed, eun, mo, i) for eu in ("TeV", "keV") for i in (0, 1)
              for sed in (True, False) for eun in (None, "TeV", "eV") for mo in ("samples", "forced", "ml", "conf")]
    ck.parallel(fitcase, items)

    # C. residuals of a model given on energies of its own: linear between the nodes
    def interp(ck, it):
        eunit, eun, sed, grid, dens, sc = it

        def go():
            t = table(4, eunit=eunit)
            t["energy"] = t["energy"] * sc
            g = {"same": E4, "rev": E4[::-1], "fine": np.sort(np.concatenate([E4, E4 * 1.01])),
                 "shift": np.array([E4[0] * 0.7, 1.0, 5.0, E4[-1] * 1.3])}[grid] * sc

            fu = u.Unit(dens)

            def model(p, data):
                return (C.fluxes(p, data["energy"].to("TeV").value) * C.FU,
                        ((g * u.TeV).to("keV"), (C.fluxes(p, g) * C.FU).to(fu)))

            s, _ = lik.make_sampler(t, model, [2.2, 1.9], nwalkers=4)
            pars = np.array([[[2.0, 2.0], [2.2, 1.9], [1.8, 2.1], [2.4, 2.2]]])
            C.stored(s, pars, [[-1.0, -2.0, -3.0, -4.0]], [[list(model(p, s.data)) for p in pars[0]]])
            s.labels = ["a", "b"]
            ck.state(it)
            with monitored(), lik.quiet():
                f = plot_fit(s, 1, n_samples=2, sed=sed, e_unit=u.Unit(eun), plotdata=True, plotresiduals=True)
            try:
                rows = rows_of(s.data, sed, eun)
                gs = np.sort(g)
                my = drawn(C.fluxes(pars[0][0], gs), gs, False, sed)
                want = [(r["x"], (r["y"] - np.interp(r["e"], gs, my)) / (0.5 * (r["yl"] + r["yh"]))) for r in rows]
                got = [p[:2] for p in markers(f.axes[1])]
                # at the very ends of the model grid rounding may leave a point without residual
                inner = [w for w, r in zip(want, rows) if gs[0] * (1 + 1e-9) < r["e"] < gs[-1] * (1 - 1e-9)] if grid == "rev" else want
                got = [g2 for g2 in got if g2[1] == g2[1]]
                for w in inner:
                    if not any(near(w[0], q[0]) and abs(w[1] - q[1]) < 1e-5 * (1 + abs(w[1])) for q in got):
                        raise Violation("residual %s is not drawn (%s)" % (w, got))
                for q in got:
                    if not any(near(w[0], q[0]) and abs(w[1] - q[1]) < 1e-5 * (1 + abs(w[1])) for w in want):
                        raise Violation("residual %s is none of the data (%s)" % (q, want))
            finally:
                plt.close("all")
            ck.step()

        ck.case("interp:%s:%s:%s:%s:%s:%s" % tuple(str(x).replace(" ", "") for x in it), go)

    ck.parallel(interp, list(itertools.product(("TeV", "keV"), ("TeV", "eV", "J"), (True, False),
                                               ("same", "rev", "fine", "shift"), ("1/(cm2 s TeV)", "1/(m2 s GeV)"), (1.0,))) +
                [(a, a, sed, g, "1/(cm2 s TeV)", sc) for a in ("TeV", "erg", "J", "keV") for sed in (True, False)
                 for g in ("same", "rev", "shift") for sc in (1e-9, 1e-3)])

    # D. several data sets on one figure, and figures that are not the current one
    def multi(ck, it):
        specs, other = it

        def go():
            plt.close("all")
            f = plt.figure()
            if other:
                plt.figure()
            rows = []
            sed, eun = specs[0][2], specs[0][1]
            for i, (eu, eun_i, sd) in enumerate(specs):
                t = table(3, (0, i % 2, 0), (i,) * 3, eunit=eu)
                with monitored(), lik.quiet():
                    g = plot_data(t, sed=sed, e_unit=u.Unit(eun_i) if eun_i else None, figure=f)
                if g is not f:
                    raise Violation("another figure was returned")
                # without a requested unit the axis keeps the unit it is labelled with
                if i == 0:
                    eun = eun_i or eu
                rows += rows_of(validate_data_table(t), sed, eun_i or eun)
                ck.step()
            ck.state(it)
            try:
                check_data_axis(f.axes[0], rows, what="%d data sets" % len(specs), styles=False)
                check_labels(f.axes[0], f.axes[0], sed, eun, "several data sets")
            finally:
                plt.close("all")

        ck.case("multi:%s:%d" % ("+".join("%s-%s-%s" % s for s in specs), other), go)

    A = [("TeV", None, True), ("keV", None, True), ("erg", None, False), ("TeV", "GeV", True)]
    B = [("TeV", None, True), ("keV", None, True), ("erg", None, True), ("eV", None, True)]
    ck.parallel(multi, [((a, b), o) for a in A for b in B for o in (0, 1)] +
                [((a, b, c), 0) for a in A for b in B[:3] for c in B[:3]])

    def onfigure(ck, it):
        kind, other = it

        def go():
            s = fresh_sampler()
            plt.close("all")
            f = plt.figure()
            if other == 1:
                plt.figure()
            elif other == 2:
                plt.close(f)
            np.random.seed(3)
            call = {"fit": lambda fig: plot_fit(s, 0, n_samples=3, figure=fig), "conf": lambda fig: plot_fit(
                s, 0, confs=[1, 2], figure=fig), "nodata": lambda fig: plot_fit(s, 0, n_samples=2, plotdata=False, figure=fig),
                "data": lambda fig: plot_fit(s, 0, n_samples=0, plotdata=True, plotresiduals=False, figure=fig),
                "blob": lambda fig: plot_blob(s, 1, n_samples=3, figure=fig)}[kind]
            with monitored(), lik.quiet():
                np.random.seed(3)
                g = call(f)
                if g is not f:
                    raise Violation("another figure was returned")
                others = [plt.figure(n) for n in plt.get_fignums() if plt.figure(n) is not f]
                if any(o.axes for o in others):
                    raise Violation("something was drawn on another figure")
                p = picture(f)
                plt.close("all")
                np.random.seed(3)
                want = picture(call(None))
                plt.close("all")
            d = picture_diff(p, want)
            if d:
                raise Violation("drawn on a given figure: %s" % d)
            ck.state(it)
            ck.step(2)

        ck.case("figure:%s:%d" % it, go)

    ck.parallel(onfigure, [(k, o) for k in ("fit", "conf", "nodata", "data", "blob") for o in (0, 1, 2)])

    # E. histories of plot calls
    ref = dict(zip(names, fresh_process_map(do_op, names)))

    def hist(ck, word):
        def go():
            import matplotlib

            matplotlib.rcdefaults()
            matplotlib.use("Agg")
            plt.close("all")
            fresh_sampler()
            for i, op in enumerate(word):
                with monitored():
                    p = do_op(op)
                ck.step()
                r = ref[op]
                if isinstance(r, Raised):
                    raise Violation("%s fails: %r" % (op, r))
                if (p is None) != (r is None):
                    raise Violation("%s returned %s" % (op, "no figure" if p is None else "a figure"))
                if p is not None:
                    d = picture_diff(p, r)
                    if d:
                        raise Violation("call %d (%s) draws something else than on its own: %s" % (i + 1, op, d))
                ck.state(("hist", word[:i + 1]))
            plt.close("all")

        ck.case("history:%s" % ".".join(word), go)

    # E2. the options of one call, and the objects they are given in, do not reach any other call or data group
    OPT = {
        "none": (None, None), "empty": ({}, {}), "ms": ({}, {"ms": 9}), "lw": ({}, {"elinewidth": 3}),
        "cap": ({"capsize": 9}, {}), "both": ({"capsize": 2, "height_fraction": 0.4}, {"marker": "s", "zorder": 50}),
    }

    def drawings():
        t1, t2 = table(**ULT), table(4, groups=(0, 1, 1, 2), ul=(0, 0, 1, 0), eunit="keV")
        return {
            "one": lambda s, k: plot_data(t1, **k),
            "groups": lambda s, k: plot_data(t2, **k),
            "two": lambda s, k: plot_data([table(3), table(4, **ULT)], sed=False, **k),
            "sampler": lambda s, k: plot_data(s, **k),
            "fit": lambda s, k: plot_fit(s, 0, n_samples=0, **k),
            "resid": lambda s, k: plot_fit(s, 0, confs=None, n_samples=2, plotdata=True, plotresiduals=True, **k),
        }

    def opt_kw(o):
        a, b = OPT[o]
        return {} if a is None else dict(ulim_opts=dict(a), errorbar_opts=dict(b))

    def opt_ref(it):
        f, o = it
        s = sampler()
        np.random.seed(11)
        with lik.quiet():
            return picture(drawings()[f](s, opt_kw(o)))

    combos = [(f, o) for f in drawings() for o in OPT]
    oref = dict(zip(combos, fresh_process_map(opt_ref, combos)))

    def options(ck, it):
        o, word = it

        def go():
            plt.close("all")
            s = fresh_sampler()
            k = opt_kw(o)  # the same objects in every call
            for i, f in enumerate(word):
                np.random.seed(11)
                with monitored(), lik.quiet():
                    p = picture(drawings()[f](s, k))
                ck.step()
                want = oref[f, o]
                if isinstance(want, Raised):
                    raise Violation("%s with options %s fails: %r" % (f, o, want))
                d = picture_diff(p, want) or (o == "empty" and picture_diff(p, oref[f, "none"]))
                if d:
                    raise Violation("call %d (%s) with options %s: %s" % (i + 1, f, OPT[o], d))
                # groups of one plot are told apart by their colour
                if f in ("groups", "two"):
                    cols = {q[3] for ax in [p] for q in ax if isinstance(q, tuple) and q[0] == "line" and q[4] in tuple("osd^v<>Dp*hH8")
                            and len(q[1])}
                    if len(cols) != (3 if f == "groups" else 2):
                        raise Violation("data groups drawn in %d colours with options %s" % (len(cols), OPT[o]))
            plt.close("all")
            ck.state(("options", o, word))

        ck.case("options:%s:%s" % (o, ".".join(word)), go)

    ck.parallel(options, [(o, w) for o in OPT for w in itertools.product(drawings(), repeat=2 if ck.quick else 3)])

    slow = {"diag", "diagpdf", "corner", "corneropt", "chainall"}

    def words():
        for w in histories(names, 2):
            if (len(w) < 2 or not ck.quick or (w[0] not in slow and w[1] not in slow)
                    or (w[0] in slow and w[1] in ("data", "fit", "fitconf", "groups", "chain"))
                    or (w[1] in slow and w[0] in ("datalw", "fitlw", "bad"))):
                yield w
        for w in itertools.product([n for n in names if n not in slow], repeat=3):
            if not ck.quick or (w[0] in ("datalw", "fitlw", "dataullw", "fitconf") and w[2] in ("data", "fit", "dataul")
                                and w[1] in ("groups", "samplerdata", "dataspec", "fitspec", "bad")):
                yield w

    ck.parallel(hist, list(words()))

    # F. chains, distributions and corner plots show the samples
    def chains(ck, it):
        kind, sh, p, ls = it

        def go():
            ns, nw = sh
            n = ns * nw
            pars = c24.shaped(c24.pars_pattern("spread", n), ns, nw)
            lp = -np.abs(np.arange(n) - 1.2).reshape(ns, nw)
            fn = lambda q, d: (C.fluxes(q, d["energy"].to("TeV").value) * C.FU, q[0] * u.erg, float(q[1]))
            s, _ = lik.make_sampler(C.data_table(5), fn, [2.2, 1.9], nwalkers=nw)
            C.stored(s, pars, lp, [[list(fn(q, s.data)) for q in st] for st in pars])
            s.labels = ["log10(norm)", "index"]
            ck.state(it)
            with monitored(), lik.quiet():
                f = {"chain": lambda: plot_chain(s, p, last_step=ls), "blob": lambda: plot_blob(s, p + 1, last_step=ls),
                     "corner": lambda: plot_corner(s)}[kind]()
            ck.step()
            use = (pars[-1] if ls else pars.reshape(-1, 2))[:, p]
            q = np.percentile(use, [16, 50, 84])

            def lines_at(ax):
                return [float(ln.get_xdata()[0]) for ln in ax.get_lines() if len(set(ln.get_xdata())) == 1
                        and len(ln.get_xdata()) == 2]

            try:
                if kind == "corner":
                    best = pars.reshape(-1, 2)[int(np.argmax(lp.ravel()))]
                    flat = pars.reshape(-1, 2)
                    for k in range(2):
                        at = lines_at(f.axes[3 * k])
                        for want in (best[k],) + tuple(np.percentile(flat[:, k], [16, 50, 84])):
                            if not any(abs(a - want) < 0.02 * (flat[:, k].max() - flat[:, k].min()) for a in at):
                                raise Violation("corner plot: no line at %g (%s)" % (want, at))
                        if not any(near(a, best[k]) for a in at):
                            raise Violation("corner plot: best fit %g not marked (%s)" % (best[k], at))
                    return
                if kind == "chain":
                    tr = [np.asarray(ln.get_ydata(), float) for ln in f.axes[0].get_lines()]
                    match([tuple(t) for t in tr], [tuple(pars[:, w, p]) for w in range(nw)], tuplenear, "trace")
                    ax = f.axes[1]
                else:
                    ax = f.axes[0]
                if not any(near(a, q[1]) for a in lines_at(ax)):
                    raise Violation("median %g is not marked (%s)" % (q[1], lines_at(ax)))
                spans = [pa.get_extents().transformed(ax.transData.inverted()) for pa in ax.patches]
                if not any(near(b.x0, q[0], 1e-6) and near(b.x1, q[2], 1e-6) for b in spans):
                    raise Violation("the 16-84%% interval %g-%g is not marked" % (q[0], q[2]))
                kde = [ln for ln in ax.get_lines() if len(ln.get_xdata()) > 10]
                if not kde or not near(min(kde[0].get_xdata()), use.min(), 1e-6) or not near(max(kde[0].get_xdata()), use.max(), 1e-6):
                    raise Violation("the distribution does not span the samples")
                txt = " ".join(t.get_text() for t in f.texts)
                med = ("%.3g" % q[1])
                if "e" not in med and ("median: $%s$" % med) not in txt:
                    raise Violation("printed median is not %s: %s" % (med, txt))
                sd = "%.3g" % np.std(use)
                if "e" not in sd and ("std: $%s$" % sd) not in txt:
                    raise Violation("printed standard deviation is not %s: %s" % (sd, txt))
            finally:
                plt.close("all")

        ck.case("chain:%s:%s:%d:%d" % (kind, "x".join(map(str, sh)), p, ls), go)

    shp = [(1, 4), (2, 4), (5, 6), (20, 8), (3, 40), (4, 70)]
    ck.parallel(chains, [(k, sh, p, ls) for k in ("chain", "blob") for sh in shp for p in (0, 1) for ls in (0, 1)]
                + [("corner", sh, 0, 0) for sh in shp[2:]])

    # G. failures inside a plot call leave the configuration alone
    def failing(ck, it):
        what, = it

        def go():
            s = fresh_sampler()
            ck.state(it)
            import corner as corner_mod
            from matplotlib.figure import Figure

            class Boom(RuntimeError):
                pass

            def boom(*a, **k):
                raise Boom("injected")

            targets = {"corner": (corner_mod, "corner", lambda: plot_corner(s)),
                       "savefig": (Figure, "savefig", lambda: diag(s)),
                       "savefigpdf": (Figure, "savefig", lambda: diagpdf(s)),
                       "diagcorner": (corner_mod, "corner", lambda: diag(s)),
                       "subplots": (Figure, "add_subplot", lambda: diag(s)),
                       "chainbad": (Figure, "text", lambda: plot_chain(s, 0)),
                       "blobs": (type(s), "get_blobs", lambda: diag(s)),
                       "chain": (type(s), "get_chain", lambda: plot_corner(s)),
                       "logprob": (type(s), "get_log_prob", lambda: plot_corner(s)),
                       "modelidx": (None, None, lambda: diagbad(s))}
            obj, name, fn = targets[what]
            old = getattr(obj, name) if obj else None
            with monitored(), lik.quiet():
                if obj:
                    setattr(obj, name, boom)
                try:
                    observe(fn)
                finally:
                    if obj:
                        setattr(obj, name, old)
            plt.close("all")
            ck.step()
            p = do_op("fit")
            d = picture_diff(p, ref["fit"])
            if d:
                raise Violation("after a failing call a fit is drawn differently: %s" % d)
            plt.close("all")

        ck.case("failing:%s" % it, go)

    def diagbad(s):
        with scratch() as d:
            save_diagnostic_plots(str(d / "nodir" / "x"), s, pdf=True, dpi=20)

    ck.parallel(failing, [(w,) for w in ("corner", "savefig", "savefigpdf", "diagcorner", "subplots", "chainbad", "blobs",
                                         "chain", "logprob", "modelidx")])

    # H. diagnostic plots: a file per parameter, corner and model output
    def files(ck, it):
        idxs, labels, pdf, sed, ls = it

        def go():
            s = fresh_sampler()
            ck.state(repr(it))
            s.labels = list(labels)
            lab = ["one", "two"]
            with scratch() as d, monitored(), lik.quiet():
                save_diagnostic_plots(str(d / "x"), s, modelidxs=None if idxs is None else list(idxs), pdf=pdf,
                                      sed=list(sed) if isinstance(sed, tuple) else sed, blob_labels=lab[:len(idxs or lab)],
                                      last_step=ls, dpi=20)
                got = sorted(p.name for p in d.iterdir())
                if not all(p.stat().st_size > 500 for p in d.iterdir()):
                    raise Violation("empty files")
            plt.close("all")
            ck.step()
            if pdf:
                want = ["x_plots.pdf"]
            else:
                def short(l):
                    return l.split("(")[-1].split(")")[0] if "log(" in l or "log10(" in l else l

                want = sorted(["x_chain_%s.png" % short(l) for l in labels] + ["x_corner.png"] +
                              ["x_model%d.png" % i for i in (idxs if idxs is not None else (0, 1))])
            if got != want:
                raise Violation("files %s instead of %s" % (got, want))
            if plt.rcParams["interactive"]:
                raise Violation("interactive mode was switched on")

        ck.case("files:%s:%s:%d:%s:%d" % ("all" if idxs is None else "".join(map(str, idxs)), "|".join(labels), pdf, sed, ls), go)

    ck.parallel(files, [(i, l, pdf, sed, ls) for i, sed in ((None, True), (None, (True, False)), ((0,), False), ((1,), True),
                                                            ((1, 0), (False, True)))
                        for l in (("log10(norm)", "index"), ("a", "log(E)")) for pdf, ls in ((0, 0), (1, 0), (0, 1))])
