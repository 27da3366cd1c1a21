"""C21: runs start where the user, the guess or the prefit says."""
TECHNIQUE = ("exhaustive enumeration of start configurations (label sets x parameter scales x data and model units x guess / "
             "prefit / priors x interactive user actions) on the real get_sampler with scripted starting-ball draws; oracle = "
             "plain energy-flux integral, plain likelihood and the rule for recognised labels")
NOTE = ("All assignments of 19 label texts to 3 parameters (up to two recognised ones), linear / log / log10 scales, 4 data x 5 "
        "model unit systems, starts up to 60 decades away;  prefit on 25-point grids of start vectors x 5 priors x 3 problems, including fits that are cut "
        "off; all words of up to 2 (thorough 3) interactive actions x prefit.")

import itertools
import re

import numpy as np
from astropy import units as u

from mc import env  # noqa
from mc import chain as C
from mc import tables as T
from mc.common import observe, Raised
from mc.harness import Violation
from mc.lik import quiet
from naima.core import get_sampler
from naima.utils import validate_data_table

REC = ["norm", "Norm", "normalization", "ampl", "Amplitude", "We", "Wp", "we_tot", "log(norm)", "log(Ampl)",
       "log10(norm)", "log10(We)", "Log10(Norm)", "LOG(wp)", "log(we"]
NOT = ["index", "K", "flux norm", "log10(cutoff)", "ln(norm)", "par1", "log10(E norm)", ""]


def zero(n, label=""):
    return 0


def scale_of(label):
    m = re.match(r"(log10|log)\(", label.lower())
    return m.group(1) if m else "lin"


def recognised(label):
    return re.match(r"(log10\(|log\()?(norm|ampl|we|wp)", label.lower()) is not None


MUNIT = {
    "df": lambda f, e: f * C.FU,
    "df2": lambda f, e: (f * C.FU).to("1/(m2 s keV)"),
    "sf": lambda f, e: (f * C.FU * (e * u.TeV) ** 2).to("erg/(cm2 s)"),
    "sf2": lambda f, e: (f * C.FU * (e * u.TeV) ** 2).to("keV/(m2 s)"),
    "mixed": lambda f, e: f * C.FU * (e * u.TeV) * (e * 1e9 * u.keV),
}


def make_model(pos, scale, munit, tup):
    def model(p, data):
        e = data["energy"].to("TeV").value
        n = p[pos]
        n = {"lin": n * 1e-12, "log": np.exp(n), "log10": 10.0**n}[scale]
        others = [x for i, x in enumerate(p) if i != pos]
        f = n * e ** -(1.6 + 0.1 * sum(others))
        q = MUNIT[munit](f, e)
        return (q, 1 * u.erg) if tup else q

    return model


def eflux(e, f):
    """Trapezoidal integral of E f(E) over energies in increasing order."""
    o = np.argsort(e)
    e, f = np.array(e)[o], np.array(f)[o]
    g = e * f
    return float(np.sum((g[1:] + g[:-1]) / 2 * np.diff(e)))


def plain(q, e):
    """Spectrum in 1/(cm2 s TeV)."""
    if q.unit.is_equivalent("erg/(cm2 s)"):
        return q.to("TeV/(cm2 s)").value / e**2
    return q.to("1/(cm2 s TeV)").value


def start_of(table, p0, model, labels, prior=None, guess=True, prefit=False, nw=6, threads=1, **kw):
    """(start vector, relative width of the ball, sampler) and nothing the user passed may change."""
    labs, tab = (None if labels is None else list(labels)), [T.snap(t) for t in (table if isinstance(table, list) else [table])]
    keep = np.array(p0, dtype=float)
    typ = type(p0)
    script = C.Script(zero)
    with C.scripted(script):
        s, pos = get_sampler(data_table=table, p0=p0, model=model, prior=prior, nwalkers=nw, nburn=0, guess=guess,
                             prefit=prefit, labels=labels, threads=threads, **kw)
    if type(p0) is not typ or not np.array_equal(np.array(p0, dtype=float), keep):
        raise Violation("the start vector of the user was changed to %r" % (p0,))
    if labels is not None and list(labels) != labs:
        raise Violation("the labels of the user were changed to %r" % (labels,))
    if [T.snap(t) for t in (table if isinstance(table, list) else [table])] != tab:
        raise Violation("the data table of the user was changed")
    st = np.array(s.run_info["p0"], dtype=float)
    x = pos.coords
    nd = len(keep)
    if x.shape != (nw, nd):
        raise Violation("%s starting positions" % (x.shape,))
    width = None
    if len(script.normals) == nw * nd:
        n = np.array(script.normals).reshape(nw, nd)
        with np.errstate(all="ignore"):
            w = (x / st - 1) / n
        w = w[:, st != 0]
        if w.size:
            width = float(np.median(w))
            if not np.all(np.abs(w - width) < 1e-9):
                raise Violation("the starting ball does not have one relative width: %s" % w.tolist())
    else:
        # other source of draws: robust width estimate
        width = float(np.median(np.abs(x / st - 1))) / 0.6745
    return st, width, s


def is_width(w, want):
    return w is None or abs(w - want) < 1e-9 or 0.4 * want < w < 2.2 * want


def ll_of(model, data, p):
    m = model(np.array(p, dtype=float), data)
    q = m[0] if isinstance(m, tuple) else m
    return C.ref_ll(plain(q, data["energy"].to("TeV").value), data)


def run(ck):
    ck.bounds = dict(labels=len(REC) + len(NOT), parameters="1-3 (8 for cut-off fits)", words="2 (thorough 3)")
    tables = {"df": C.data_table(), "sed": C.data_table(sed=True), "noul": C.data_table(ul=False, eunit=u.keV)}
    a, b = C.data_table(3, ul=False), C.data_table(5, sed=True)
    tables["list"] = [b[[4, 3, 1]], a]
    BASE = {"lin": 3.3, "log": np.log(4e-12), "log10": -11.4}

    # A. guess: which label, how it is scaled
    def guess(ck, it):
        labels, dat, mu, tup, p0k, on = it
        key = "guess:%s:%s:%s:%s:%s:%s" % ("|".join(labels) if labels is not None else None, dat, mu, tup, p0k, on)

        def go():
            full = list(labels) if labels is not None else ["norm", "par1", "par2"]
            full += ["par%d" % i for i in range(len(full), 3)]
            hits = [i for i, l in enumerate(full) if recognised(l)]
            pos = hits[0] if hits else 0
            sc = scale_of(full[pos]) if hits else "lin"
            p0 = [1.3, 2.1, 0.9]
            p0[pos] = BASE[sc]
            p0 = {"list": list, "array": np.array, "tuple": tuple, "int": lambda x: [int(round(y)) for y in x]}[p0k](p0)
            model = make_model(pos, sc, mu, tup)
            st, w, s = start_of(tables[dat], p0, model, labels, guess=on)
            ck.step()
            ck.state(it)
            ck.outcome(["%.9e" % x for x in st])
            if not is_width(w, 0.1):
                raise Violation("starting ball of relative width %r instead of 0.1" % w)
            want = np.array(p0, dtype=float)
            if on and len(hits) == 1:
                data = validate_data_table(tables[dat])
                e = data["energy"].to("TeV").value
                dflux = eflux(e, plain(data["flux"], e))
                q = model(st, data)
                mflux = eflux(e, plain(q[0] if tup else q, e))
                if not abs(mflux / dflux - 1) < 1e-9:
                    raise Violation("start %s: energy flux of the model is %.6g times that of the data" % (st, mflux / dflux))
                want[pos] = st[pos]
            if not np.allclose(st, want, rtol=1e-12, atol=0):
                raise Violation("start %s instead of %s" % (st, want))

        ck.case(key, go)

    items = []
    for i in range(3):
        for r in REC:
            for n1, n2 in (("index", "log10(cutoff)"), ("K", "flux norm"), ("ln(norm)", "log10(E norm)")):
                l = [n1, n2]
                l.insert(i, r)
                items.append((tuple(l), "df", "df", False, "array", True))
                items.append((tuple(l), "df", "df", True, "list", False))
    for r1, r2 in itertools.product(REC, repeat=2):
        items.append((("index", r1, r2), "df", "df", False, "list", True))
    for n1, n2, n3 in itertools.product(NOT, repeat=3):
        items.append(((n1, n2, n3), "df", "df", False, "array", True))
    for l in (None, (), ("norm",), ("index", "log10(norm)"), ("index",), ("log(ampl)", "x")):
        for dat, mu, p0k in itertools.product(tables, MUNIT, ("list", "array", "tuple", "int")):
            items.append((l if l is None else tuple(l), dat, mu, p0k == "list", p0k, True))
    for r, dat, mu, tup in itertools.product(("norm", "log(norm)", "log10(We)", "Log10(Norm)"), tables, MUNIT, (False, True)):
        for i in range(3):
            l = ["index", "cut"]
            l.insert(i, r)
            items.append((tuple(l), dat, mu, tup, "array", True))
    items = list(dict.fromkeys(items))

    def guess_l(ck, it):
        lab = it[0]
        guess(ck, (None if lab is None else list(lab),) + it[1:])
        if lab is not None and len(lab) == 3:
            pass

    ck.parallel(guess_l, items)

    # starts any number of decades away, of either sign, and data of any level
    def far(ck, it):
        lab, k, sign, j, mu = it

        def go():
            tab = tables["noul"].copy()
            for c in ("flux", "flux_error_lo", "flux_error_hi"):
                tab[c] = tab[c] * 10.0**j
            sc = scale_of(lab)
            p0 = [1.3, 0.0, 0.9]
            p0[1] = {"lin": sign * 3.3 * 10.0**k, "log": np.log(4e-12) + k * np.log(10), "log10": -11.4 + k}[sc]
            model = make_model(1, sc, mu, False)
            st, w, s = start_of(tab, p0, model, ["index", lab, "cut"])
            ck.step()
            ck.state(it)
            data = validate_data_table(tab)
            e = data["energy"].to("TeV").value
            dflux = eflux(e, plain(data["flux"], e))
            mflux = eflux(e, plain(model(st, data), e))
            if not abs(mflux / dflux - 1) < 1e-9:
                raise Violation("start %s: energy flux of the model is %.6g times that of the data" % (st, mflux / dflux))
            if st[0] != 1.3 or st[2] != 0.9:
                raise Violation("start %s: other parameters moved" % st)

        ck.case("far:%s:%d:%d:%d:%s" % it, go)

    ck.parallel(far, [(lab, k, sign, j, mu) for lab in ("norm", "log(norm)", "log10(We)") for k in range(-60, 61, 12)
                      for sign in ((1, -1) if lab == "norm" else (1,)) for j in (-40, -9, 0, 9, 40) for mu in ("df", "sf2")])

    # labels given as other sequences
    for typ in (tuple, list):
        for l in (("norm", "index", "cut"), ("norm",), ("index", "log(norm)")):
            def go(l=l, typ=typ):
                model = make_model(1 if "log(norm)" in l else 0, "log" if "log(norm)" in l else "lin", "df", False)
                p0 = np.array([1.3, np.log(3e-12), 0.9]) if "log(norm)" in l else np.array([3.0, 1, 1])
                st, w, s = start_of(tables["df"], p0, model, typ(l))
                if len(s.labels) < 3 or list(s.labels)[:len(l)] != list(l):
                    raise Violation("labels %r" % (s.labels,))
                ck.step()
            ck.case("labelseq:%s:%s" % (typ.__name__, "|".join(l)), go)

    # B. prefit: problems, start grids, priors
    def pl(p, data):  # norm, index
        return C.fluxes(p, data["energy"].to("TeV").value) * C.FU

    def loglike_model(p, data):  # log10 norm, index, log10 cutoff
        return C.fluxes([10 ** (p[0] + 12), p[1], 10 ** p[2]], data["energy"].to("TeV").value) * C.FU, p[0] * u.erg

    def wiggly(p, data):  # many parameters: the fit is cut off at its maximum number of evaluations
        e = data["energy"].to("TeV").value
        f = C.fluxes(p[:2], e)
        for k in range(2, len(p)):
            f = f * (1 + 0.1 * np.sin(p[k] * (k + 1)) * np.log(e + k) + 0.02 * (p[k] - p[k - 1]) ** 2)
        return f * C.FU

    def onepar(p, data):
        return C.fluxes([p[0], 2.4], data["energy"].to("TeV").value) * C.FU

    def nanpart(p, data):  # no value for negative normalisations
        return np.where(p[0] > 0, 1.0, np.nan) * C.fluxes(p, data["energy"].to("TeV").value) * C.FU

    PROB = {
        "pl": (pl, [(n, g) for n in (0.3, 1.5, 2.2, 5.0, 40.0) for g in (1.0, 2.0, 2.7, 3.5, 5.0)], ["norm", "index"]),
        "cut": (loglike_model, [(n, g, c) for n in (-13, -11.6, -10.5) for g in (1.2, 2.0, 3.0) for c in (0.7, 1.3, 2.5)],
                ["log10(norm)", "index", "log10(cutoff)"]),
        "many": (wiggly, [(n, 2.0, 0.3, 0.2, -0.5, 0.8, 1.0, -0.3, 0.4, 0.9) for n in (0.5, 2.0, 6.0)] +
                 [(2.0, g, 1.3, -0.2, 0.5, 0.8, -1.0) for g in (1.0, 3.0)], None),
        "one": (onepar, [(n,) for n in (0.01, 0.4, 2.0, 2.3, 9.0)], ["norm"]),
        "nan": (nanpart, [(n, g) for n in (0.05, 2.0, 8.0) for g in (1.0, 2.4, 4.0)], ["norm", "index"]),
    }

    def priors(prob, p0):
        return {
            "none": None,
            "flat": lambda p: 0.0,
            "wide": lambda p: 0.0 if all(abs(x - y) < 200 for x, y in zip(p, p0)) else -np.inf,
            "tight": lambda p: 0.0 if all(abs(x - y) <= 0.02 * abs(y) for x, y in zip(p, p0)) else -np.inf,
            "nothing": lambda p: -np.inf,
            "notstart": lambda p: -np.inf if np.allclose(p, p0, rtol=1e-6) else 0.0,
            "gauss": lambda p: -0.5 * ((p[-1] - 2.0) / 0.1) ** 2,
        }

    def prefit(ck, it):
        prob, k, pn, gs, dat = it
        key = "prefit:%s:%d:%s:%s:%s" % it

        def go():
            fn, starts, labels = PROB[prob]
            p0 = list(starts[k])
            prior = priors(prob, p0)[pn]
            table = tables[dat]
            data = validate_data_table(table)
            g0, w0, _ = start_of(table, list(p0), fn, labels, prior=prior, guess=gs, nw=2 * len(p0))
            calls = [0]

            def counted(p, d):
                calls[0] += 1
                return fn(p, d)

            st, w, s = start_of(table, np.array(p0, dtype=float), counted, labels, prior=prior, guess=gs, prefit=True,
                                nw=2 * len(p0))
            ck.step(calls[0])
            ck.state(it)
            ck.outcome(["%.6e" % x for x in st])
            moved = not np.allclose(st, g0, rtol=1e-12, atol=0)
            if not is_width(w0, 0.1):
                raise Violation("without prefit the ball has relative width %r" % w0)
            l0, l1 = ll_of(fn, data, g0), ll_of(fn, data, st)
            if not (l1 >= l0 - 1e-9 * max(1, abs(l0)) or (l0 != l0)):
                raise Violation("prefit moved the start from %s (log-likelihood %r) to the less likely %s (%r)" % (g0, l0, st, l1))
            if moved and prior is not None and not np.isfinite(prior(st)):
                raise Violation("prefit moved the start to %s, which is forbidden by the prior" % st)
            if not moved:
                # a fit that ends exactly where it started never happens on these problems
                if not is_width(w, 0.1):
                    raise Violation("ball of relative width %r although no better start was found" % w)
            elif calls[0] >= 495:
                if not is_width(w, 0.1):
                    raise Violation("ball of relative width %r although the fit was cut off after %d evaluations" % (w, calls[0]))
            elif not is_width(w, 0.005):
                raise Violation("ball of relative width %r after a successful fit (%d evaluations)" % (w, calls[0]))
            if pn in ("none", "flat", "wide", "gauss") and prob in ("pl", "cut") and not moved:
                raise Violation("prefit left the start %s although a better one is allowed" % g0)
            if moved and prob in ("pl", "cut") and calls[0] < 495:
                # a maximum: no neighbour is much more likely
                for i in range(len(st)):
                    for d in (-0.15, 0.15):
                        q = st.copy()
                        q[i] *= 1 + d
                        if ll_of(fn, data, q) > l1 + 0.25 * max(1.0, abs(l1)):
                            raise Violation("the maximum-likelihood start %s (%r) is less likely than %s" % (st, l1, q))

        ck.case(key, go)

    items = []
    for prob in PROB:
        for k in range(len(PROB[prob][1])):
            for pn in ("none", "flat", "wide", "tight", "nothing", "notstart", "gauss"):
                for gs in (False, True):
                    for dat in (("df",) if ck.quick else ("df", "sed", "noul")):
                        if prob == "nan" and pn == "gauss":
                            continue
                        items.append((prob, k, pn, gs, dat))
    ck.parallel(prefit, items)

    # C. interactive start
    import matplotlib.pyplot as plt
    import naima.model_fitter as mf

    ACT = ("move0", "move1", "update", "fit", "auto")

    def interactive(ck, it):
        word, pre, lab = it
        key = "interactive:%s:%s:%s" % (".".join(word) or "close", pre, lab)

        def go():
            ck.state(it)
            last = {}
            calls = [0]

            def fn(p, d):
                calls[0] += 1
                return pl(p, d) if lab != "log" else loglike_model(p, d)

            Real = mf.InteractiveModelFitter

            class User(Real):
                def __init__(self, *a, **k):
                    super().__init__(*a, **k)
                    for act in word:
                        if act == "move0":
                            self.parsliders[0].set_val(self.parsliders[0].val * (1.1 if lab != "log" else 0.99))
                        elif act == "move1":
                            self.parsliders[1].set_val(self.parsliders[1].val * 0.93)
                        elif act == "update":
                            self.update("user")
                        elif act == "fit":
                            self.do_fit("user")
                        else:
                            self.update_autoupdate("user")
                    last["pars"] = np.array(self.pars, dtype=float)
                    last["ml"] = bool(self.P0_IS_ML)
                    last["calls"] = calls[0]

            labels = {"lin": ["norm", "index"], "short": ["norm"], "log": ["log10(norm)", "index", "log10(cutoff)"]}[lab]
            p0 = {"lin": [2.0, 2.2], "short": [2.0, 2.2], "log": [-11.7, 2.2, 1.2]}[lab]
            old = plt.rcParams["interactive"]
            mf.InteractiveModelFitter = User
            try:
                st, w, s = start_of(tables["df"], np.array(p0), fn, labels, guess=False, prefit=pre, interactive=True)
            finally:
                mf.InteractiveModelFitter = Real
                plt.close("all")
            ck.step(len(word) + 1)
            if plt.rcParams["interactive"] != old:
                raise Violation("the interactive setting of matplotlib was changed")
            if not last:
                raise Violation("the interactive fitter was not used")
            ck.outcome((st.tolist(), last["ml"]))
            data = validate_data_table(tables["df"])
            if not pre or last["ml"]:
                if not np.allclose(st, last["pars"], rtol=1e-12, atol=0):
                    raise Violation("start %s instead of the %s of the interactive fitter" % (st, last["pars"]))
                if not is_width(w, 0.005 if last["ml"] else 0.1):
                    raise Violation("ball of relative width %r although the interactive parameters are%s a maximum"
                                    % (w, "" if last["ml"] else " not"))
                if calls[0] - last["calls"] > 30:
                    raise Violation("a second fit was made although the parameters are a maximum")
            else:
                if ll_of(fn, data, st) < ll_of(fn, data, last["pars"]) - 1e-9:
                    raise Violation("prefit start less likely than the interactive one")
                if np.allclose(st, last["pars"], rtol=1e-12, atol=0):
                    raise Violation("no prefit was made after the interactive session")
                if not is_width(w, 0.005):
                    raise Violation("ball of relative width %r after a successful fit" % w)

        ck.case(key, go)

    items = [(w, pre, lab) for n in range(0, 3 if ck.quick else 4) for w in itertools.product(ACT, repeat=n)
             for pre in (False, True) for lab in ("lin", "short", "log")]
    ck.parallel(interactive, items)
