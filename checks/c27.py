"""C27: Sherpa models equal the native models they wrap."""
TECHNIQUE = ("explicit exploration of operation histories on the real Sherpa wrappers (parameter changes, evaluations at points "
             "and over bins, explicit vectors, caching switches, reuse of returned arrays, other instances, guesses) up to a "
             "depth, and complete enumeration of single and pairwise parameter settings and of sessions with Sherpa's own data, "
             "composition, filtering and fit; every value is compared with a native model built afresh from the parameter values")
NOTE = ("all words of length 3 for the synchrotron wrapper, 2 for the others (one more in the thorough tier) over 15 operations; every pair of parameters over 3 values each; "
        "point grids of 1 to 4 energies in any order, bins consecutive, with gaps, decreasing, single")

import contextlib
import io
import itertools
import logging
import warnings

import numpy as np
from astropy import units as u

from mc import env  # noqa
from mc.common import observe, Raised
from mc.harness import Violation

import naima.models as nm

warnings.simplefilter("ignore", DeprecationWarning)

KINDS = ("ic", "sync", "brems", "pp")
COMMON = dict(index=2.1, ref=60.0, ampl=100.0, cutoff=0.0, beta=1.0, distance=1.0, verbose=0.0)
EXTRA = {
    "ic": dict(TFIR=30.0, uFIR=0.0, TNIR=3000.0, uNIR=0.0),
    "sync": dict(B=1.0),
    "brems": dict(n0=1.0, weight_ee=1.088, weight_ep=1.263),
    "pp": dict(nH=1.0),
}
ALT = dict(index=[1.6, 2.9, -0.4], ref=[1.0, 7.5], ampl=[1e-3, 2.5e7], cutoff=[20.0, 300.0], beta=[2.0, 0.6],
           distance=[2.5, 0.1], verbose=[1.0], TFIR=[70.0, 12.0], uFIR=[0.4, 1e-3], TNIR=[5000.0], uNIR=[1.3, 0.02],
           B=[1e-4, 9.0], n0=[12.0, 0.0], weight_ee=[0.5], weight_ep=[2.0], nH=[0.02, 30.0])


def cls(kind):
    import naima.sherpa_models as S

    return {"ic": S.InverseCompton, "sync": S.Synchrotron, "brems": S.Bremsstrahlung, "pp": S.PionDecay}[kind]


def defaults(kind):
    d = dict(COMMON)
    d.update(EXTRA[kind])
    return d


def vector(model, p):
    return [float(p[q.name]) for q in model.pars]


_memo = {}


def nflux(kind, p, e):
    """Native differential flux in photons / (cm2 s keV), from an object built for the occasion."""
    key = (kind, tuple(sorted((k, v) for k, v in p.items() if k != "verbose")), tuple(e))
    if key not in _memo:
        amp = p["ampl"] * 1e30 / u.eV
        if p["cutoff"]:
            part = nm.ExponentialCutoffPowerLaw(amplitude=amp, e_0=p["ref"] * u.TeV, alpha=p["index"],
                                                e_cutoff=p["cutoff"] * u.TeV, beta=p["beta"])
        else:
            part = nm.PowerLaw(amplitude=amp, e_0=p["ref"] * u.TeV, alpha=p["index"])
        if kind == "ic":
            seeds = ["CMB"]
            if p["uFIR"]:
                seeds.append(["FIR", p["TFIR"] * u.K, p["uFIR"] * u.eV / u.cm**3])
            if p["uNIR"]:
                seeds.append(["NIR", p["TNIR"] * u.K, p["uNIR"] * u.eV / u.cm**3])
            m = nm.InverseCompton(part, seed_photon_fields=seeds, Eemin=1 * u.GeV, Eemax=100 * u.TeV, Eed=100)
        elif kind == "sync":
            m = nm.Synchrotron(part, B=p["B"] * u.G)
        elif kind == "brems":
            m = nm.Bremsstrahlung(part, n0=p["n0"] / u.cm**3, weight_ee=p["weight_ee"], weight_ep=p["weight_ep"])
        else:
            m = nm.PionDecay(part, nh=p["nH"] / u.cm**3)
        _memo[key] = m.flux(np.array(e) * u.keV, distance=p["distance"] * u.kpc).to("1/(cm2 s keV)").value
    return _memo[key]


def want(kind, p, g):
    """E dN/dE at points, photons in each bin."""
    if len(g) == 1:
        return np.array(g[0]) * nflux(kind, p, g[0])
    lo, hi = g
    e = tuple(sorted(set(lo) | set(hi)))
    f = dict(zip(e, nflux(kind, p, e)))
    out = []
    for a, b in zip(lo, hi):
        fa, fb = f[a], f[b]
        if fa <= 0 or fb <= 0:
            out.append(0.0)
            continue
        s = np.log(fb / fa) / np.log(b / a) + 1  # power law through both edges
        out.append(fa * a * (np.log(b / a) if abs(s) < 1e-9 else np.expm1(s * np.log(b / a)) / s))
    return np.array(out)


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-8, atol=1e-12 * np.max(np.abs(b), initial=0.0))


SCALE = dict(ic=1e8, sync=2.0, brems=3e8, pp=4e8)


def grids(kind):
    s = SCALE[kind]
    a = tuple(s * np.array([1.0, 2.5, 9.0]))
    b = tuple(s * np.array([1.5, 4.0, 30.0]))
    return {
        "p": (a,), "q": (b,), "one": (a[1:2],), "shuf": ((a[2], a[0], a[1]),), "dup": ((a[1], a[1]),),
        "bins": (a[:2], a[1:]), "bin": (a[:1], a[1:2]), "gap": ((a[0], b[1]), (a[1], b[2])), "down": (a[1::-1], (a[2], a[1])),
        "over": ((a[0], b[0]), (a[1], a[2])), "narrow": ((a[0], a[0] * 1.01), (a[0] * 1.01, a[0] * 1.03)),
    }


def ev(model, g, p=None):
    args = [np.array(x) for x in g]
    before = [x.copy() for x in args]
    with contextlib.redirect_stdout(io.StringIO()):
        r = model(*args) if p is None else model.calc(p, *args)
    if any(not np.array_equal(x, y) for x, y in zip(args, before)):
        raise Violation("the energies passed were modified")
    return r


def setp(model, p, **kw):
    for k, v in kw.items():
        getattr(model, k).set(v)
        p[k] = float(v)


class World:
    def __init__(self, kind):
        self.kind = kind
        self.m = cls(kind)("x")
        self.p = defaults(kind)
        self.o = cls(kind)("y")
        self.op = defaults(kind)
        self.g = grids(kind)
        self.last = None
        for k, v in self.p.items():
            if float(getattr(self.m, k).val) != v:
                raise Violation("default of %s is %r" % (k, getattr(self.m, k).val))

    def look(self, name, what, other=False):
        m, p = (self.o, self.op) if other else (self.m, self.p)
        r = ev(m, self.g[name])
        if not close(r, want(self.kind, p, self.g[name])):
            raise Violation("%s: evaluation %s gives %s, the native model %s" % (what, name, r, want(self.kind, p, self.g[name])))
        self.last = r
        return r

    def verify(self, what):
        for k, v in self.p.items():
            if float(getattr(self.m, k).val) != v:
                raise Violation("%s: parameter %s is %r instead of %r" % (what, k, getattr(self.m, k).val, v))


XPAR = dict(ic=("uFIR", 0.4), sync=("B", 1e-4), brems=("n0", 12.0), pp=("nH", 0.02))


def op_corrupt(w):
    if w.last is not None:
        w.last[...] = -7.0


def op_explicit(w):
    q = dict(w.p, index=2.6, distance=3.0)
    r = ev(w.m, w.g["p"], vector(w.m, q))
    if not close(r, want(w.kind, q, w.g["p"])):
        raise Violation("an explicit vector gives %s instead of %s" % (r, want(w.kind, q, w.g["p"])))
    w.last = r


def op_other(w):
    setp(w.o, w.op, index=1.7, ampl=3.0)
    setp(w.o, w.op, **{XPAR[w.kind][0]: XPAR[w.kind][1]})
    w.look("p", "other instance", other=True)


def op_cache0(w):
    w.m.cache = 0


def op_cache1(w):
    w.m.cache = 1


def op_startup(w):
    w.m.startup(True)


def op_teardown(w):
    w.m.startup(False)
    w.m.teardown()


def op_guess(w):
    base = want(w.kind, w.p, w.g["p"])
    w.m.guess(3.0 * base, np.array(w.g["p"][0]))
    w.p["ampl"] = float(w.m.ampl.val)
    if not close(want(w.kind, w.p, w.g["p"]), 3.0 * base):
        raise Violation("guess gives amplitude %r: %s for data %s" % (w.p["ampl"], want(w.kind, w.p, w.g["p"]), 3.0 * base))


OPS = {
    "index": lambda w: setp(w.m, w.p, index=2.9 if w.p["index"] == 2.1 else 2.1),
    "ampl": lambda w: setp(w.m, w.p, ampl=4.0 if w.p["ampl"] == 100.0 else 100.0),
    "cutoff": lambda w: setp(w.m, w.p, cutoff=20.0 if w.p["cutoff"] == 0.0 else 0.0),
    "distance": lambda w: setp(w.m, w.p, distance=2.5 if w.p["distance"] == 1.0 else 1.0),
    "extra": lambda w: setp(w.m, w.p, **{XPAR[w.kind][0]: XPAR[w.kind][1] if w.p[XPAR[w.kind][0]] == EXTRA[w.kind][
        XPAR[w.kind][0]] else EXTRA[w.kind][XPAR[w.kind][0]]}),
    "p": lambda w: w.look("p", "in the history"),
    "q": lambda w: w.look("q", "in the history"),
    "bins": lambda w: w.look("bins", "in the history"),
    "corrupt": op_corrupt,
    "explicit": op_explicit,
    "other": op_other,
    "cache0": op_cache0,
    "cache1": op_cache1,
    "startup": op_startup,
    "teardown": op_teardown,
    "guess": op_guess,
}

FEW = ("index", "extra", "p", "bins", "corrupt", "cache1", "other")


def run(ck):
    logging.getLogger("sherpa").setLevel(logging.ERROR)
    logging.getLogger("astropy").setLevel(logging.ERROR)
    depth = {"ic": 2, "sync": 3, "brems": 2, "pp": 2}
    if not ck.quick:
        depth = {"ic": 4, "sync": 4, "brems": 3, "pp": 3}
    ck.bounds = dict(operations=len(OPS), depth=depth, pairs="all pairs of parameters over all listed values")

    # A. parameter settings
    def setting(ck, it):
        kind, ch = it

        def go():
            m = cls(kind)("x")
            p = defaults(kind)
            setp(m, p, **dict(ch))
            gs = grids(kind)
            for n in (gs if len(ch) <= 1 else ("p", "gap")):
                r = ev(m, gs[n])
                ck.step()
                w = want(kind, p, gs[n])
                if not close(r, w):
                    raise Violation("with %s, %s gives %s, the native model %s" % (dict(ch), n, r, w))
                ck.state((kind, ch, n))
                ck.outcome(tuple(np.float32(r)))
            if len(ch) <= 1:
                d = cls(kind)("d")  # a model left at its defaults, with the vector given explicitly
                for n in gs:
                    r = ev(d, gs[n], vector(m, p))
                    if not close(r, want(kind, p, gs[n])):
                        raise Violation("explicit vector with %s, %s gives %s, the native model %s"
                                        % (dict(ch), n, r, want(kind, p, gs[n])))
            # keyword for the upper edge, and Sherpa's explicit vector
            r = m.calc(vector(m, p), np.array(gs["bins"][0]), xhi=np.array(gs["bins"][1])) if not p["verbose"] else None
            if r is not None and not close(r, want(kind, p, gs["bins"])):
                raise Violation("with %s, calc(xhi=) gives %s" % (dict(ch), r))

        ck.case("set:%s:%s" % (kind, ",".join("%s=%g" % c for c in ch)), go)

    items = []
    for k in KINDS:
        names = [n for n in defaults(k)]
        items.append((k, ()))
        for n in names:
            items += [(k, ((n, v),)) for v in ALT[n]]
        for a, b in itertools.combinations(names, 2):
            if "verbose" in (a, b):
                continue
            va, vb = ALT[a], ALT[b]
            if k == "pp" and ck.quick:
                va, vb = va[:1], vb[:1]
            items += [(k, ((a, x), (b, y))) for x in va for y in vb]
        # beta matters only with a cutoff, temperatures only with a density
        items += [(k, (("cutoff", 20.0), ("beta", y), ("index", 1.6))) for y in ALT["beta"]]
    items += [("ic", (("uFIR", 0.4), ("TFIR", t), ("uNIR", v), ("TNIR", s))) for t in (12.0, 70.0) for v in (0.0, 1.3)
              for s in (3000.0, 5000.0)]
    
    ck.parallel(setting, items)

    # A2. every parameter over the whole range Sherpa accepts, all features switched on
    def ladder(ck, it):
        kind, par, v = it

        def go():
            m = cls(kind)("x")
            p = defaults(kind)
            on = {k: x for k, x in dict(cutoff=20.0, beta=0.8, uFIR=0.4, uNIR=1.3).items() if k in p}
            setp(m, p, **dict(on, **{par: v}))
            for n in ("p", "gap"):
                w = observe(want, kind, p, grids(kind)[n])
                if isinstance(w, Raised) or not np.all(np.isfinite(w)):
                    continue  # no native value to compare with
                r = ev(m, grids(kind)[n])
                ck.step()
                if not close(r, w):
                    raise Violation("with %s=%r, %s gives %s, the native model %s" % (par, v, n, r, w))
                ck.state(("ladder", kind, par, v, n))

        ck.case("ladder:%s:%s=%g" % it, go)

    fine = 1 if ck.quick else 3
    lad = dict(index=np.linspace(-10, 10, 12 * fine + 1), beta=np.linspace(0, 10, 10 * fine + 1),
               weight_ee=np.linspace(0, 10, 5 * fine + 1), weight_ep=np.linspace(0, 10, 5 * fine + 1),
               B=np.append(0.0, np.logspace(-9, 1, 10 * fine + 1)))
    for n, lo, hi in (("ref", -6, 6), ("ampl", -30, 60), ("cutoff", -4, 6), ("distance", -6, 6), ("TFIR", -2, 5),
                      ("TNIR", -2, 5), ("uFIR", -8, 4), ("uNIR", -8, 4), ("n0", -6, 20), ("nH", -6, 12)):
        lad[n] = np.append(() if n == "distance" else 0.0, np.logspace(lo, hi, 10 * fine + 1))
    ck.parallel(ladder, [(k, n, float(v)) for k in KINDS for n in defaults(k) if n in lad for v in lad[n]])

    # B. histories
    def history(ck, it):
        kind, w = it

        def go():
            x = World(kind)
            for i, o in enumerate(w):
                OPS[o](x)
                ck.step()
                x.verify("after %s" % ".".join(w[:i + 1]))
            for n in ("p", "bins", "p"):
                x.look(n, "after %s" % ".".join(w))
                ck.step()
            x.look("q", "other instance after %s" % ".".join(w), other=True)
            x.verify("at the end")
            ck.state((kind, tuple(sorted(x.p.items())), x.m.cache, w))

        ck.case("hist:%s:%s" % (kind, ".".join(w)), go)

    ck.parallel(history, [(k, w) for k in KINDS for d in range(1, depth[k] + 1)
                          for w in itertools.product(FEW if k == "pp" and ck.quick and d > 1 else OPS, repeat=d)])

    # C. guesses
    def guess(ck, it):
        kind, gname, k, shape, amp, frozen = it

        def go():
            m = cls(kind)("x")
            p = defaults(kind)
            setp(m, p, ampl=amp, index=2.4)
            if frozen:
                m.ampl.freeze()
            g = grids(kind)[gname]
            base = want(kind, dict(p, ampl=1.0), g)
            tilt = np.ones(len(base)) if shape in ("same", "neg") else np.linspace(0.5, 1.7, len(base))
            dep = k * base * tilt
            if shape == "neg":
                dep = dep * np.where(np.arange(len(base)) == int(np.argmin(base)), -0.1, 1.0)
            keep = dep.copy()
            r = observe(m.guess, dep, *[np.array(x) for x in g])
            ck.step()
            if isinstance(r, Raised):
                raise Violation("guess: %r" % r)
            if not np.array_equal(keep, dep):
                raise Violation("guess modified the data")
            for n, v in p.items():
                if n != "ampl" and float(getattr(m, n).val) != v:
                    raise Violation("guess changed %s" % n)
                if n != "ampl" and getattr(m, n).frozen != getattr(cls(kind)("z"), n).frozen:
                    raise Violation("guess thawed or froze %s" % n)
            a = float(m.ampl.val)
            if amp == 0.0 or not np.any(base > 0):
                if not np.isfinite(a):
                    raise Violation("guess left the amplitude %r" % a)
                return
            if not np.isfinite(a) or a <= 0:
                raise Violation("guess gives amplitude %r" % a)
            mod = a * base
            if shape == "same" and not close(mod, dep):
                raise Violation("after guess the model is %s for data %s" % (mod, dep))
            if shape == "tilt":
                q = mod / dep
                if not (q.min() <= 1 + 1e-9 and q.max() >= 1 - 1e-9):
                    raise Violation("after guess the model is %s for data %s" % (mod, dep))
            if shape == "neg" and not 0.2 * k < a < 1.01 * k:
                raise Violation("data of amplitude %g with one negative point: guess gives %g" % (k, a))
            r = ev(m, g)
            if not close(r, mod):
                raise Violation("after guess the model evaluates to %s, the native one to %s" % (r, mod))
            ck.state(("guess", it))

        ck.case("guess:%s:%s:%g:%s:%g:%d" % it, go)

    gi = [(kd, g, k, s, a, f) for kd in KINDS for g in ("p", "shuf", "bins", "gap", "down", "one", "bin")
          for k in (1e-12, 1.0, 3e7) for s in ("same", "tilt", "neg") for a in (100.0, 1e-20, 0.0) for f in (0, 1)
          if not (s == "neg" and g in ("one", "bin"))]
    if ck.quick:
        gi = [x for x in gi if not (x[0] == "pp" and (x[1] not in ("p", "gap", "one") or x[2] == 1.0))]
    ck.parallel(guess, gi)

    # D. sessions with Sherpa's data sets, composition, filters and fits
    def session(ck, it):
        comp, binned, filt, act = it

        def go():
            from sherpa import ui

            ui.clean()
            ka, kb = "ic", "sync"
            a, b = cls(ka)("a"), cls(kb)("b")
            pa, pb = defaults(ka), defaults(kb)
            setp(a, pa, ampl=3.0)
            setp(b, pb, ampl=2e-4, B=1e-3)
            e = 1e7 * np.logspace(0, 2, 7)
            lo, hi = e[:-1], e[1:]
            sel = np.arange(len(lo))
            if filt == "gap":
                sel = np.array([0, 1, 4, 5])
            if comp == "linked":
                b.index = a.index
            expr = {"single": a, "sum": a + b, "linked": a + b, "scaled": 3.0 * a, "prod": a * b}[comp]

            def ref(pa, pb):
                if comp == "linked":
                    pb = dict(pb, index=pa["index"])
                g = (tuple(lo[sel]), tuple(hi[sel])) if binned else (tuple(lo[sel]),)
                A = want(ka, pa, g)
                if comp == "single":
                    return A
                if comp == "scaled":
                    return 3.0 * A
                B = want(kb, pb, g)
                return A * B if comp == "prod" else A + B

            y = 1.3 * (want(ka, dict(pa, index=2.3), (tuple(lo), tuple(hi)) if binned else (tuple(lo),)))
            if comp in ("sum", "linked"):
                y = y + 0.7 * want(kb, pb, (tuple(lo), tuple(hi)) if binned else (tuple(lo),))
            err = 0.1 * y
            if binned:
                ui.load_arrays(1, lo, hi, y, err, ui.Data1DInt)
            else:
                ui.load_arrays(1, lo, y, err)
            if filt == "gap":
                mid = np.sqrt(lo * hi)
                ui.ignore(*((mid[2], mid[3]) if binned else (lo[2], lo[3])))
            ui.set_source(expr)
            ui.set_stat("chi2")

            def now():
                qa = {q.name: float(q.val) for q in a.pars}
                qb = {q.name: float(q.val) for q in b.pars}
                return qa, qb

            def compare(what):
                r = np.asarray(ui.get_data(1).eval_model_to_fit(expr))
                w = ref(*now())
                ck.step()
                if not close(r, w):
                    raise Violation("%s: the session evaluates %s, the native models %s" % (what, r, w))
                s = ui.calc_stat()
                ws = float(np.sum(((y[sel] - w) / err[sel]) ** 2))
                if not abs(s - ws) <= 1e-6 * abs(ws) + 1e-9:
                    raise Violation("%s: statistic %r, from the native models %r" % (what, s, ws))
                return s

            s0 = compare("at first")
            if act == "guess" and comp == "single":
                ui.guess()
                compare("after guess")
                qa = now()[0]
                if {k: v for k, v in qa.items() if k != "ampl"} != {k: v for k, v in pa.items() if k != "ampl"}:
                    raise Violation("guess changed other parameters: %s" % qa)
            if act == "change":
                for s in (("index", 2.5), ("distance", 1.7), ("cutoff", 90.0)):
                    a_, v = s
                    getattr(a, a_).set(v)
                    compare("after %s" % a_)
                b.B.set(3e-3)
                compare("after B")
            if act.startswith("fit") and comp != "prod":
                ui.set_method(act[3:])
                if act[3:] == "neldermead":
                    ui.set_method_opt("maxfev", 60)
                ui.freeze(b)
                ui.fit()
                s1 = compare("after the fit")
                if s1 > s0 * (1 + 1e-9):
                    raise Violation("the fit worsened the statistic from %r to %r" % (s0, s1))
                if s0 > 1 and s1 == s0:
                    raise Violation("the fit did not move")
                fr = ui.get_fit_results()
                if not abs(fr.statval - s1) <= 1e-5 * max(1e-3, abs(s1)) :
                    raise Violation("the fit reports statistic %r, the native model at its result gives %r" % (fr.statval, s1))
            ck.state(("session", it))

        ck.case("session:%s:%d:%s:%s" % it, go)

    ck.parallel(session, [(c, b, f, a) for c in ("single", "sum", "linked", "scaled", "prod") for b in (0, 1)
                          for f in ("all", "gap") for a in ("guess", "change", "fitlevmar", "fitneldermead")
                          if not (a == "guess" and c != "single")])
