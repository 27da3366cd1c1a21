"""C26: the interactive fitter always shows the parameters it holds."""
TECHNIQUE = ("explicit exploration of user-action histories of the real widget (Agg canvas): all words up to a depth from the "
             "opened window and de Bruijn sequences covering every longer word as a factor, with the outcome of the optimiser "
             "as an environment choice; a small reference machine (sliders, held vector, automatic update, fit claim) is run "
             "in lockstep and curve, likelihood text, sliders and returned vector are compared after every action")
NOTE = ("11 actions; all words of length 2 from the start of every configuration and all words of length 3 as factors (4 in "
        "the thorough tier); wiring checked with real mouse events for all words of length 2; sessions inside get_sampler.")

import itertools
import re

import numpy as np
from astropy import units as u

from mc import env  # noqa
from mc import chain as C
from mc import lik
from mc.common import observe, Raised
from mc.harness import Violation
from naima.core import get_sampler
from naima.model_fitter import InteractiveModelFitter
from naima.utils import validate_data_table

ERG = 1.602176634
SEDU = u.Unit("erg/(cm2 s)")


# ------------------------------------------------------------------ models (plain numbers and as naima sees them)
def vals(kind, p, e):
    p = [float(x) for x in p]
    a = 10.0 ** (p[0] + 12) if kind == "log" else p[0]
    y = a * 1e-12 * e ** -(p[1] if len(p) > 1 else 2.0)
    if len(p) > 2:
        y = y * np.exp(p[2] * e / 100.0)
    return y


def make(kind, out):
    def model(p, data):
        e = data["energy"]
        f = vals(kind, p, e.to("TeV").value) * C.FU
        if out == "sed":
            return (f * e**2).to(SEDU)
        if out == "tuple":
            return f, p[0] * u.erg
        if out == "list":
            return [f, (e, f)]
        if out == "m2":
            return f.to("1/(m2 s GeV)")
        return f

    return model


CONFIGS = {
    # name: (kind, p0, labels, data, e_range, sed, output)
    "base": ("lin", [2.2, 1.9], ["norm", "index"], "df", None, True, "array"),
    "log": ("log", [-11.7, 2.1], ["log10(norm)", "alpha"], "df", None, True, "tuple"),
    "steep": ("lin", [2.2, 6.5], ["amplitude", "index"], "df", None, False, "array"),
    "three": ("lin", [2.2, 1.9, -0.4], ["norm", "index", "beta"], "sed", None, True, "sed"),
    "negnorm": ("lin", [-2.2, 1.9], ["norm", "index"], "df", None, True, "array"),
    "negindex": ("lin", [2.2, -0.5], ["norm", "index"], "df", None, True, "list"),
    "neglow": ("lin", [2.2, -6.0], ["norm", "alpha"], "kev", None, True, "array"),
    "zero": ("lin", [2.2, 1.9, 0.0], ["norm", "index", "beta"], "df", None, True, "array"),
    "zeroindex": ("lin", [2.2, 0.0], ["norm", "index"], "df", None, True, "array"),
    "nolabels": ("lin", [2.2, 1.9], None, "df", None, True, "m2"),
    "short": ("lin", [2.2, 1.9, -0.4], ["norm"], "df", None, False, "array"),
    "tuple": ("lin", (2.2, 1.9), ("norm", "index"), "df", None, True, "array"),
    "shorttuple": ("lin", (2.2, 1.9), ("norm",), "df", None, True, "array"),
    "ints": ("lin", np.array([2, 2]), ["norm", "index"], "df", None, True, "array"),
    "array": ("log", np.array([-11.7, 2.1]), ["log10(amplitude)", "index"], "noul", None, True, "array"),
    "one": ("lin", [2.2], ["norm"], "df", None, True, "array"),
    "range": ("lin", [2.2, 1.9], ["norm", "index"], "df", (0.2, 40.0, 9), True, "tuple"),
    "rangekev": ("lin", [2.2, 1.9], ["norm", "index"], "kev", (0.2, 40.0, 7), False, "sed"),
    "range5": ("lin", [2.2, 1.9], ["norm", "index"], "df", (0.3, 20.0, 5), True, "array"),
    "nodata": ("lin", [2.2, 1.9], ["norm", "index"], None, None, True, "array"),
    "nodatarange": ("lin", [2.2, -1.9], ["norm", "index"], None, (0.2, 40.0, 6), False, "tuple"),
    "auto": ("lin", [2.2, 1.9], ["norm", "index"], "df", None, True, "array"),
}
DATA = {"df": {}, "sed": dict(sed=True), "kev": dict(eunit=u.keV), "noul": dict(ul=False)}


class Cfg:
    def __init__(self, name):
        self.name = name
        self.kind, p0, labels, data, self.er, self.sed, out = CONFIGS[name]
        self.p0 = p0.copy() if isinstance(p0, np.ndarray) else type(p0)(p0)
        self.labels = None if labels is None else type(labels)(labels)
        self.table = None if data is None else C.data_table(5, **DATA[data])
        self.valid = None if data is None else validate_data_table(self.table)
        self.model = make(self.kind, out)
        self.eunit = u.keV if data == "kev" else u.TeV
        if self.er:
            self.e = np.logspace(np.log10(self.er[0]), np.log10(self.er[1]), self.er[2])
        elif data:
            self.e = np.array(C.E_TEV)
        else:
            self.e = np.logspace(-4, 2, 100)

    def open(self, auto=True):
        kw = {}
        if self.er:
            kw = dict(e_range=[self.er[0] * u.TeV, self.er[1] * u.TeV], e_npoints=self.er[2])
        return InteractiveModelFitter(self.model, self.p0, data=self.table, labels=self.labels, sed=self.sed,
                                      auto_update=auto, **kw)

    def curve(self, p):
        y = vals(self.kind, p, self.e)
        return y * self.e**2 * ERG if self.sed else y

    def ll(self, p):
        return C.ref_ll(vals(self.kind, p, np.array(C.E_TEV)), self.valid)


class Optimiser:
    """Stands in for the minimiser: the outcome of the next fit is chosen by the action."""

    def __init__(self):
        import naima.extern.minimize as m

        self.m, self.real = m, m.minimize
        self.next = None
        self.called = 0
        m.minimize = self

    def close(self):
        self.m.minimize = self.real

    def __call__(self, fun, x0, args=(), **k):
        self.called += 1
        if self.next is None:
            return self.real(fun, x0, args=args, **k)
        out, x = self.next
        x = np.array(x, dtype=float)
        return {"x": x, "success": out == "ok", "status": {"ok": 0, "max": 1, "fail": 2}[out], "fun": fun(x, *args),
                "nfev": 1, "nit": 1, "message": ""}


class Screen:
    """Stands in for the drawing on idle: remembers what the figure held when it was last asked to be drawn."""

    def __init__(self):
        from matplotlib.backend_bases import FigureCanvasBase

        self.cls, self.real = FigureCanvasBase, FigureCanvasBase.draw_idle
        self.imf = None
        self.shown = None
        FigureCanvasBase.draw_idle = lambda canvas, *a, **k: self.draw(canvas)

    def close(self):
        self.cls.draw_idle = self.real

    def content(self):
        i = self.imf
        return (np.array(u.Quantity(i.line.get_ydata()).value, dtype=float).tobytes(),
                i.lnprobtxt.get_text() if i.hasdata else None, tuple(s.valtext.get_text() for s in i.parsliders))

    def watch(self, imf):
        self.imf = imf
        self.shown = self.content()

    def draw(self, canvas):
        if self.imf is not None and canvas.figure is self.imf.fig:
            self.shown = self.content()

    def check(self, what):
        if self.shown != self.content():
            raise Violation("%s: the window was not redrawn after its last change" % what)


class Ref:
    """Reference machine: what the window must show."""

    def __init__(self, p0, auto):
        self.S = [float(x) for x in p0]
        self.P = list(self.S)
        self.auto = auto
        self.fitted = None  # vector of the last successful fit, while it is the one held
        self.stale = False  # sliders moved since the last refresh

    def move(self, i, v):
        self.S[i] = v
        if self.auto:
            self.refresh()
        else:
            self.stale = True

    def refresh(self):
        self.P = list(self.S)
        self.fitted = None
        self.stale = False


ACTIONS = ("a+", "a-", "ao", "b+", "b-", "update", "toggle", "fit", "fitout", "fitmax", "fitfail", "real")
NODATA = ("a+", "a-", "ao", "b+", "b-", "update", "toggle")


def check(cfg, imf, R, what):
    got = [float(x) for x in imf.pars]
    if got != R.P:
        raise Violation("%s: held parameters %s instead of %s" % (what, got, R.P))
    sl = [float(s.val) for s in imf.parsliders]
    if sl != R.S:
        raise Violation("%s: sliders show %s instead of %s" % (what, sl, R.S))
    if not R.stale and sl != got:
        raise Violation("%s: sliders show %s after a refresh, held parameters %s" % (what, sl, got))
    y = np.asarray(u.Quantity(imf.line.get_ydata()).value, dtype=float)
    x = np.asarray(u.Quantity(imf.line.get_xdata()).value, dtype=float)
    if not np.allclose(x, cfg.e * u.TeV.to(cfg.eunit), rtol=1e-9, atol=0):
        raise Violation("%s: curve drawn at %s" % (what, x))
    w = cfg.curve(R.P)
    if y.shape != w.shape or not np.allclose(y, w, rtol=1e-9, atol=0):
        raise Violation("%s: the curve is not that of the held parameters %s" % (what, R.P))
    if cfg.table is not None:
        m = re.search(r"=\s*([-+0-9.einfa]+)", imf.lnprobtxt.get_text())
        ll = cfg.ll(R.P)
        if m is None or not (abs(float(m.group(1)) - ll) <= 0.0501 + 1e-9 * abs(ll)):
            raise Violation("%s: displayed likelihood %r, that of the held parameters is %r" % (what, imf.lnprobtxt.get_text(), ll))
    if imf.P0_IS_ML and (R.fitted is None or R.fitted != got):
        raise Violation("%s: %s is claimed to be a maximum-likelihood solution but is not the unmodified result of a fit"
                        % (what, got))
    # the slider text is the number it holds, if it shows one
    for s in imf.parsliders:
        t = observe(float, s.valtext.get_text())
        if not isinstance(t, Raised) and abs(t - s.val) > 1e-3 * abs(s.val) + 1e-12:
            raise Violation("%s: a slider is labelled %s for %r" % (what, s.valtext.get_text(), s.val))


def target(cfg, R, a):
    """Where a move goes, and where a fit ends."""
    p = [float(x) for x in cfg.p0]
    if a in ("a+", "b+"):
        i = 0 if a[0] == "a" else len(p) - 1
        return i, (1.25 * p[i] if p[i] else 0.3)
    return (0 if a[0] == "a" else len(p) - 1), (0.8 * p[0 if a[0] == "a" else -1] or -0.2)


def fit_target(cfg, a):
    p = np.array([float(x) for x in cfg.p0])
    k = 1.1 if a == "fit" else 1.05 if a == "fitmax" else 0.5 if a == "fitfail" else 7.0
    if cfg.kind == "log" and a == "fitout":
        return list(p + np.array([5.0, 7.0])[:len(p)])
    return list(p * k + (0.011 if a == "fitout" else 0.001))


def act(cfg, imf, opt, R, a, click=None):
    """One user action on the window and on the reference."""
    if a[0] in "ab" and a[1] in "+-o":
        i, v = target(cfg, R, a)
        s = imf.parsliders[i]
        if a[1] == "o":
            v = s.valmax + abs(s.valmax - s.valmin) + 1.0
        if click:
            click.drag(s, v)
            v = float(s.val)  # a drag lands on a pixel
        else:
            s.set_val(v)
            v = float(s.val)
        R.move(i, v)
    elif a == "update":
        click.press("Update model") if click else imf.update("test")
        R.refresh()
    elif a == "toggle":
        click.press("Auto update") if click else imf.update_autoupdate("test")
        R.auto = not R.auto
    else:
        n = opt.called
        opt.next = None if a == "real" else ({"fit": "ok", "fitout": "ok", "fitmax": "max", "fitfail": "fail"}[a],
                                             fit_target(cfg, a))
        before = list(R.S)
        with lik.quiet():
            click.press("Do Nelder-Mead fit") if click else imf.do_fit("test")
        if opt.next is None or opt.called == n:
            x = [float(v) for v in imf.pars]  # free: only consistency is judged
            ok = bool(imf.P0_IS_ML)
            if opt.called == n:
                raise Violation("no fit was done")
            if ok and cfg.ll(x) < cfg.ll(before) - 1e-9:
                raise Violation("the fit ended at a lower likelihood than it began")
        else:
            x = opt.next[1] if opt.next[0] != "fail" else before
            ok = opt.next[0] == "ok"
            if opt.next[0] == "fail":
                x = before
        R.S = [float(v) for v in x]
        R.refresh()
        R.fitted = list(R.P) if ok else None


class Mouse:
    """Real mouse events on the canvas."""

    def __init__(self, imf):
        self.f = imf.fig
        self.f.canvas.draw()

    def event(self, name, x, y):
        from matplotlib.backend_bases import MouseEvent

        self.f.canvas.callbacks.process(name, MouseEvent(name, self.f.canvas, x, y, button=1))

    def press(self, text):
        for ax in self.f.axes:
            if any(t.get_text() == text for t in ax.texts):
                x, y = ax.transAxes.transform((0.5, 0.5))
                if text == "Auto update":
                    # the box left of the text, wherever this version of matplotlib draws it
                    for co in ax.collections:
                        off = co.get_offsets()
                        if len(off):
                            x, y = co.get_offset_transform().transform(off[0])
                            break
                self.event("button_press_event", x, y)
                self.event("button_release_event", x, y)
                return
        raise Violation("no control %r in the window" % text)

    def drag(self, s, v):
        v = min(max(v, s.valmin), s.valmax)
        x, y = s.ax.transData.transform((v, 0.5))
        y = s.ax.transAxes.transform((0.5, 0.5))[1]
        lo, hi = s.ax.transAxes.transform((0, 0))[0], s.ax.transAxes.transform((1, 0))[0]
        x = min(max(x, lo + 1), hi - 1)
        self.event("button_press_event", x, y)
        self.event("button_release_event", x, y)


def debruijn(k, n):
    """A sequence over range(k) containing every word of length n."""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)

    db(1, 1)
    return seq + seq[:n - 1]


def run(ck):
    import logging

    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    logging.getLogger("astropy").setLevel(logging.ERROR)
    ck.bounds = dict(actions=len(ACTIONS), configurations=len(CONFIGS), depth_from_start=2 if ck.quick else 3,
                     factors=3 if ck.quick else 4, mouse_depth=2)

    # A. words from the opened window
    def word(ck, it):
        name, w, auto = it

        def go():
            import warnings

            warnings.simplefilter("ignore")
            plt.close("all")
            cfg = Cfg(name)
            opt, scr = Optimiser(), Screen()
            try:
                imf = cfg.open(auto)
                scr.watch(imf)
                R = Ref(cfg.p0, auto)
                check(cfg, imf, R, "opened")
                for i, a in enumerate(w):
                    act(cfg, imf, opt, R, a)
                    ck.step()
                    ck.state((name, tuple(R.S), tuple(R.P), R.auto, R.fitted is not None))
                    check(cfg, imf, R, "after %s" % ".".join(w[:i + 1]))
                    scr.check("after %s" % ".".join(w[:i + 1]))
                imf.close_fig("test")
                if plt.fignum_exists(imf.fig.number):
                    raise Violation("the window is still open")
                check(cfg, imf, R, "after closing")
                ck.outcome((name, tuple(R.P)))
            finally:
                opt.close()
                scr.close()
                plt.close("all")

        ck.case("word:%s:%d:%s" % (name, auto, ".".join(w)), go)

    items = []
    for n in CONFIGS:
        al = NODATA if CONFIGS[n][3] is None else ACTIONS
        d = 2 if (n in ("base", "log", "three") or not ck.quick) else 1
        for dd in range(d + 1):
            for w in itertools.product(al, repeat=dd):
                for auto in (True, False):
                    items.append((n, w, auto))
    if not ck.quick:
        items += [("base", w, a) for w in itertools.product(ACTIONS, repeat=3) for a in (True, False)]

    # B. every longer word as a factor of one session
    def session(ck, it):
        name, n, start = it

        def go():
            import warnings

            warnings.simplefilter("ignore")
            plt.close("all")
            cfg = Cfg(name)
            al = NODATA if cfg.table is None else ACTIONS
            seq = debruijn(len(al), n)
            opt, scr = Optimiser(), Screen()
            try:
                imf = cfg.open(True)
                scr.watch(imf)
                R = Ref(cfg.p0, True)
                hist = []
                for i in range(start, len(seq)):
                    if i - start > CHUNK:
                        break
                    a = al[seq[i]]
                    act(cfg, imf, opt, R, a)
                    ck.step()
                    hist.append(a)
                    ck.state((name, tuple(R.S), tuple(R.P), R.auto, R.fitted is not None))
                    check(cfg, imf, R, "after ...%s (action %d)" % (".".join(hist[-6:]), len(hist)))
                    scr.check("after ...%s (action %d)" % (".".join(hist[-6:]), len(hist)))
            finally:
                opt.close()
                scr.close()
                plt.close("all")

        ck.case("session:%s:%d:%d" % it, go)

    CHUNK = 220 if ck.quick else 400
    sess = []
    for n in CONFIGS:
        al = NODATA if CONFIGS[n][3] is None else ACTIONS
        d = 3 if ck.quick else 4
        if ck.quick and n not in ("base", "log", "three", "steep", "range", "nodata"):
            d = 2
        if not ck.quick and n not in ("base", "log", "three", "range", "nodata"):
            d = 3
        for s in range(0, len(al) ** d + d - 1, CHUNK - d):
            sess.append((n, d, s))
    ck.parallel(lambda c, x: (word if x[0] == "w" else session)(c, x[1]), [("w", i) for i in items] + [("s", i) for i in sess])

    # C. real mouse events, while the window is open (the constructor shows it)
    def mouse(ck, it):
        name, w, auto = it

        def go():
            import warnings

            warnings.simplefilter("ignore")
            plt.close("all")
            cfg = Cfg(name)
            opt = Optimiser()
            err = []
            holder = []

            class Sub(InteractiveModelFitter):
                def __init__(self, *a, **k):
                    holder.append(self)
                    super().__init__(*a, **k)

            def show(*a, **k):
                imf = holder[0]
                try:
                    R = Ref(cfg.p0, auto)
                    m = Mouse(imf)
                    check(cfg, imf, R, "opened")
                    for i, x in enumerate(w):
                        m.f.canvas.draw()
                        act(cfg, imf, opt, R, x, click=m)
                        ck.step()
                        check(cfg, imf, R, "after clicking %s" % ".".join(w[:i + 1]))
                    m.press("Close window")
                    if plt.fignum_exists(imf.fig.number):
                        raise Violation("the window is still open")
                    ck.state(("mouse", it))
                except BaseException as e:  # noqa
                    err.append(e)

            old = plt.show
            plt.show = show
            try:
                Sub(cfg.model, cfg.p0, data=cfg.table, labels=cfg.labels, sed=cfg.sed, auto_update=auto)
            finally:
                plt.show = old
                opt.close()
                plt.close("all")
            if err:
                raise err[0]

        ck.case("mouse:%s:%d:%s" % (name, auto, ".".join(w)), go)

    clicks = ("a+", "b-", "update", "toggle", "fit", "fitout", "fitfail")
    ck.parallel(mouse, [(n, w, a) for n in ("base", "log") for d in (1, 2) for w in itertools.product(clicks, repeat=d)
                        for a in (True, False)])

    # D. get_sampler starts from what the window returned
    def started(ck, it):
        w, prefit, auto, fail = it

        def go():
            import warnings

            warnings.simplefilter("ignore")
            plt.close("all")
            cfg = Cfg("base")
            opt, scr = Optimiser(), Screen()
            import naima.model_fitter as mf

            holder, err, res = [], [], []
            orig = mf.InteractiveModelFitter

            class Sub(orig):
                def __init__(self, *a, **k):
                    holder.append(self)
                    super().__init__(*a, **k)

            def show(*a, **k):
                imf = holder[0]
                try:
                    R = Ref(cfg.p0, True)
                    if not auto:
                        act(cfg, imf, opt, R, "toggle")
                    for x in w:
                        act(cfg, imf, opt, R, x)
                        ck.step()
                    res.append(R)
                    if fail:
                        raise RuntimeError("injected")
                    imf.close_fig("x")
                except RuntimeError:
                    raise
                except BaseException as e:  # noqa
                    err.append(e)

            old = plt.show
            plt.show = show
            mf.InteractiveModelFitter = Sub
            inter = True
            plt.rcParams["interactive"] = True
            try:
                n0 = None
                with lik.quiet():
                    opt.next = None
                    r = observe(get_sampler, data_table=cfg.table, p0=list(cfg.p0), model=cfg.model, nwalkers=8, nburn=0,
                                guess=False, prefit=prefit, interactive=True, labels=list(cfg.labels), threads=1)
                if err:
                    raise err[0]
                if plt.rcParams["interactive"] != inter:
                    raise Violation("interactive mode of the plots was left %s" % (not inter))
                if fail:
                    return
                if isinstance(r, Raised):
                    raise Violation("get_sampler: %r" % r)
                if not res:
                    raise Violation("no window was shown")
                R = res[0]
                p = [float(x) for x in r[0].run_info["p0"]]
                nfits = sum(1 for x in w if x.startswith("fit") or x == "real")
                if prefit and opt.called > nfits:
                    # a further fit from the returned vector: at least as good
                    if not np.all(np.isfinite(p)):
                        raise Violation("start %s" % p)
                elif p != R.P:
                    raise Violation("the run starts at %s but the window returned %s" % (p, R.P))
                if prefit and R.fitted is None and opt.called == nfits:
                    raise Violation("the fit asked for was not done although the window returned %s, no result of a fit" % R.P)
                ck.state(("start", it))
            finally:
                plt.show = old
                mf.InteractiveModelFitter = orig
                opt.close()
                scr.close()
                plt.rcParams["interactive"] = False
                plt.close("all")

        ck.case("start:%s:%d:%d:%d" % (".".join(w), prefit, auto, fail), go)

    al = ("a+", "b-", "update", "toggle", "fit", "fitmax", "fitfail", "fitout")
    ck.parallel(started, [(w, p, a, 0) for d in (0, 1, 2) for w in itertools.product(al, repeat=d) for p in (False, True)
                          for a in (True, False)][::1] + [(("a+",), p, True, 1) for p in (False, True)])
