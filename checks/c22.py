"""C22: a saved run reads back as the same run."""
TECHNIQUE = ("explicit exploration of save/read histories on the real code: all words over {save, save with overwriting, "
             "read, results} x {sampler A, B} on a scratch file against a file model, and exhaustive enumeration of model-"
             "output structures, sampler shapes, value patterns, units, labels, run information and data tables; oracle = "
             "the sampler itself")
NOTE = ("Every catalogue structure (and every sequence of up to three outputs from a 14-item alphabet) x chain shapes up to "
        "4 steps, 8 walkers, 3 parameters x compression; histories of up to 3 file operations (4 in the thorough tier).")

import itertools
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
from astropy import units as u

from checks.c19 import STRUCT, World, out_diff
from mc import env  # noqa
from mc import chain as C
from mc import lik
from mc.common import observe, Raised, same
from mc.harness import Violation, histories
from naima import read_run, save_run, save_results_table
from naima.core import run_sampler
from naima.plot import find_ML, plot_chain, plot_corner, plot_fit


class Default:
    @staticmethod
    def choose(n, label=""):
        return 0


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c22.")
        return Path(self.d)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def real_run(struct, nd=2, nw=4, steps=2, data="df", prior="box"):
    W = World(nd, struct, prior, data, nw)
    with C.scripted(C.Script(Default.choose)):
        s, pos = W.start(1)
        s, pos = run_sampler(sampler=s, pos=pos, nrun=steps)
    return s


# ------------------------------------------------------------------ comparison
def supported(x):
    """Numbers, arrays and sequences of equal-length arrays are model outputs; text and the like are not."""
    if isinstance(x, (tuple, list)):
        return (len(x) > 0 and all(isinstance(y, np.ndarray) or np.isscalar(y) for y in x) and
                len({np.shape(y) for y in x}) == 1 and all(supported(y) for y in x))
    if isinstance(x, (str, bytes, dict, type(None))):
        return False
    return np.asarray(x).dtype.kind in "fiu"


def item_diff(got, want):
    if isinstance(want, (tuple, list)):
        if not isinstance(got, (tuple, list)) or len(got) != len(want):
            return "%s instead of a sequence of %d" % (type(got).__name__, len(want))
        for g, w in zip(got, want):
            d = item_diff(g, w)
            if d:
                return d
        return None
    if got is None:
        return "missing"
    if isinstance(want, u.Quantity):
        if not isinstance(got, u.Quantity):
            return "no unit"
        if want.unit.physical_type != got.unit.physical_type or got.unit != want.unit and not got.unit.is_equivalent(want.unit):
            return "unit %s instead of %s" % (got.unit, want.unit)
    elif isinstance(got, u.Quantity) and got.unit != u.dimensionless_unscaled:
        return "unit %s instead of none" % got.unit
    return same(got, want, 1e-12)


def snap(s):
    return (s.get_chain().copy(), s.get_log_prob().copy(),
            [[[str(o) if not isinstance(o, (u.Quantity, np.ndarray, tuple, list)) else repr(o) for o in w] for w in st]
             for st in s.get_blobs()],
            list(s.labels), repr(sorted(s.run_info.items(), key=str)),
            [(c, str(s.data[c].unit), np.array(s.data[c]).tolist()) for c in s.data.colnames], repr(s.data.meta),
            np.array(s.acceptance_fraction).tolist(), s.get_chain().shape)


def snap_equal(a, b):
    return (np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1], equal_nan=True) and a[2:] == b[2:])


def info_equal(got, want):
    if want is None:
        return got is None or str(got) == "None"
    if isinstance(want, dict):
        return str(got) == str(want)
    if isinstance(want, (str, bytes)):
        return str(got) == str(want)
    d = observe(same, got, want, 1e-12)
    return d is None


def check_read(r, s, what=""):
    """r describes the run of the sampler s."""
    c, l, b = s.get_chain(), s.get_log_prob(), s.get_blobs()
    for name, got, want in (("chain", r.get_chain(), c), ("flat chain", r.get_chain(flat=True), s.get_chain(flat=True)),
                            ("log-probability", r.get_log_prob(), l),
                            ("flat log-probability", r.get_log_prob(flat=True), s.get_log_prob(flat=True))):
        if np.shape(got) != np.shape(want) or not np.array_equal(got, want, equal_nan=True):
            raise Violation("%s%s differs" % (what, name))
    rb = r.get_blobs()
    for st in range(c.shape[0]):
        if len(rb[st]) != c.shape[1]:
            raise Violation("%soutputs of %d walkers instead of %d" % (what, len(rb[st]), c.shape[1]))
        for w in range(c.shape[1]):
            for k, o in enumerate(b[st][w]):
                if not supported(b[-1][0][k]):
                    continue
                if k >= len(rb[st][w]):
                    raise Violation("%soutput %d is missing" % (what, k))
                d = item_diff(rb[st][w][k], o)
                if d:
                    raise Violation("%soutput %d of step %d walker %d: %s" % (what, k, st, w, d))
    if list(r.labels) != list(s.labels):
        raise Violation("%slabels %r instead of %r" % (what, list(r.labels), list(s.labels)))
    for k, v in s.run_info.items():
        if k not in r.run_info or not info_equal(r.run_info[k], v):
            raise Violation("%srun information %s is %r instead of %r" % (what, k, r.run_info.get(k, "missing"), v))
    if list(r.data.colnames) != list(s.data.colnames):
        raise Violation("%sdata columns %s instead of %s" % (what, r.data.colnames, s.data.colnames))
    for col in s.data.colnames:
        g, w = r.data[col], s.data[col]
        if (g.unit is None) != (w.unit is None) or (w.unit is not None and u.Unit(g.unit) != u.Unit(w.unit)):
            raise Violation("%sdata column %s in %s instead of %s" % (what, col, g.unit, w.unit))
        if not np.array_equal(np.array(g), np.array(w)):
            raise Violation("%sdata column %s differs" % (what, col))
    if abs(np.mean(r.acceptance_fraction) - np.mean(s.acceptance_fraction)) > 1e-12:
        raise Violation("%sacceptance fraction %r" % (what, r.acceptance_fraction))


def roundtrip(ck, s, path, **kw):
    before = snap(s)
    with lik.quiet():
        save_run(str(path), s, **kw)
    ck.step()
    if not os.path.exists(path):
        raise Violation("no file was written")
    if not snap_equal(before, snap(s)):
        raise Violation("saving altered the sampler")
    with lik.quiet():
        r = read_run(str(path))
    check_read(r, s)
    return r


# ------------------------------------------------------------------ alphabets of outputs
def walk(v, i):
    return v * (1 + 0.37 * i)


G5 = np.array([0.5, 1.0, 2.5, 6.0, 11.0])
ITEMS = {
    "flux": lambda i: walk(G5**-2.1 * 1e-12, i) * C.FU,
    "sed": lambda i: walk(G5, i) * u.Unit("erg/(cm2 s)"),
    "energy": lambda i: walk(7.5, i) * u.erg,
    "float": lambda i: float(walk(1.5, i)),
    "npfloat": lambda i: np.float64(walk(-2.5, i)),
    "int": lambda i: 3 + i,
    "ndarray": lambda i: walk(G5, i),
    "intarray": lambda i: np.arange(5) + i,
    "pair": lambda i: (G5 * u.keV, walk(G5, i) / u.erg),
    "listpair": lambda i: [G5[:3] * u.keV, walk(G5[:3], i) / u.erg],
    "triple": lambda i: (G5 * u.keV, walk(G5, i) / u.erg, walk(G5, 2 * i) * u.G),
    "numpair": lambda i: (G5, walk(G5, i)),
    "vary": lambda i: (walk(3.0, i) * u.erg) if i % 2 == 0 else (walk(3.0, i) * u.erg).to("TeV"),
    "varyarr": lambda i: (walk(G5, i) * u.erg) if i % 2 == 0 else (walk(G5, i) * u.erg).to("TeV"),
    "text": lambda i: "n%d" % i,
    "one": lambda i: walk(G5[:1], i) * u.erg,
    "matrix": lambda i: walk(np.outer(G5[:2], G5[:3]), i) * u.s,
    "single": lambda i: (walk(G5, i) * u.erg,),
    "scalarpair": lambda i: (walk(2.0, i) * u.erg, walk(3.0, i) * u.s),
    "f32": lambda i: np.float32(walk(1.5, i)) * u.dimensionless_unscaled,
    "none": lambda i: None,
    "dict": lambda i: {"a": i},
    "special": lambda i: np.array([np.nan, np.inf, -np.inf, 0.0, 1e-320 * (1 + i)]) * u.erg,
}
SHORT = ("flux", "energy", "float", "int", "pair", "listpair", "triple", "ndarray", "vary", "text", "one", "matrix",
         "single", "none")
UNITS = ("erg", "1/(cm2 s TeV)", "erg/(cm2 s)", "1e-12 erg", "km/(s Mpc)", "uG", "1/eV", "10**-3 TeV", "cm(-2) s(-1)",
         "eV2", "%", "deg", "Msun", "m(1/2) / s(3/2)", "1/cm3", "K", "ph/(cm2 s keV)", "1/(TeV3 s cm2)", "mag", "yr", "")

_S = {}


def base(nd, nw):
    k = (nd, nw)
    if k not in _S:
        _S[k] = lik.make_sampler(C.data_table(), lambda p, data: C.fluxes(p[:3], data["energy"].to("TeV").value) * C.FU,
                                 {1: [1.9], 2: [2.2, 1.9]}.get(nd, [2.2, 1.9, 20.0] + [1.0] * (nd - 3)), nwalkers=nw)[0]
    return _S[k]


def filled(nd, nw, ns, items, labels=None, info=None):
    s = base(nd, nw)
    rng = [((7 * i + 3) % 11 - 5) / 3.0 for i in range(ns * nw * nd)]
    chain = np.array(rng).reshape(ns, nw, nd) + np.arange(ns * nw * nd).reshape(ns, nw, nd) * 1e-3
    lp = -np.arange(ns * nw, dtype=float).reshape(ns, nw) ** 1.5 % 7.0
    if ns * nw > 3:
        lp.flat[2] = -np.inf
    blobs = [[[it(st * nw + w) for it in items] for w in range(nw)] for st in range(ns)]
    C.stored(s, chain, lp, blobs)
    s.labels = list(labels) if labels is not None else ["p%d" % i for i in range(nd)]
    s.run_info = dict(info) if info is not None else {"n_walkers": nw, "n_burn": 0, "n_run": ns, "guess": False,
                                                      "p0": [1.0] * nd, "p0_burn_median": np.ones(nd)}
    return s


def lines(fig):
    """What is drawn: every line, collection path and text of a figure."""
    out = []
    for ax in fig.axes:
        for ln in ax.get_lines():
            out.append(("line", np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)))
        for co in ax.collections:
            for p in co.get_paths():
                out.append(("path", p.vertices[:, 0], p.vertices[:, 1]))
    return out


def same_figure(a, b):
    if len(a) != len(b):
        return "%d instead of %d artists" % (len(a), len(b))
    for x, y in zip(a, b):
        if x[0] != y[0] or x[1].shape != y[1].shape or not np.allclose(x[1], y[1], rtol=1e-9, atol=0, equal_nan=True) \
                or not np.allclose(x[2], y[2], rtol=1e-9, atol=0, equal_nan=True):
            return "a %s differs" % x[0]
    return None


def run(ck):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    shapes = [(1, 2, 1), (2, 4, 2), (3, 4, 1), (2, 6, 3), (4, 8, 3), (1, 6, 2)]
    comp = (True, False, "gzip", "lzf", None)
    ck.bounds = dict(structures=len(STRUCT) + 1, items=len(ITEMS), shapes=shapes, units=len(UNITS), compression=len(comp),
                     outputs="1-3", history_depth=3 if ck.quick else 4)

    # A. runs of every structure of model outputs
    def structs(ck, it):
        st, data, steps = it

        def go():
            s = real_run(st, data=data, steps=steps)
            ck.state(("struct", it))
            with scratch() as d:
                r = roundtrip(ck, s, d / "run.h5")
                ck.outcome(repr(r.get_blobs()[-1][0])[:200])

        ck.case("struct:%s:%s:%d" % it, go)

    ck.parallel(structs, [(st, da, n) for st in list(STRUCT) + ["naima"] for da in ("df", "sed", "noul", "kev")
                          for n in ((1, 2) if ck.quick else (1, 2, 5))])

    # B. sequences of outputs, values and shapes
    def seqs(ck, it):
        names, sh, cp = it

        def go():
            ns, nw, nd = sh
            s = filled(nd, nw, ns, [ITEMS[n] for n in names])
            ck.state(("seq", it))
            with scratch() as d:
                roundtrip(ck, s, d / "run.hdf5", compression=cp)

        ck.case("seq:%s:%s:%s" % ("+".join(names), "x".join(map(str, sh)), cp), go)

    items = [((a,), sh, cp) for a in ITEMS for sh in shapes for cp in comp]
    items += [((a, b), sh, True) for a in ITEMS for b in ITEMS for sh in (shapes[0], shapes[1])]
    if ck.quick:
        items += [(t, shapes[1], False) for t in itertools.product(SHORT[:6] + ("text", "triple"), repeat=3)]
    else:
        items += [(t, sh, True) for t in itertools.product(SHORT, repeat=3) for sh in (shapes[1], shapes[2])]
    ck.parallel(seqs, items)

    # C. units
    def unitcase(ck, it):
        un, kind = it

        def go():
            q = u.Unit(un)
            f = {"scalar": lambda i: walk(2.5, i) * q, "array": lambda i: walk(G5, i) * q,
                 "pair": lambda i: (G5 * q, walk(G5, i) / q), "alt": lambda i: walk(G5, i) * q}[kind]
            s = filled(2, 4, 2, [ITEMS["flux"], lambda i: u.Quantity(f(i)) if kind in ("scalar", "array", "alt") else f(i)])
            ck.state(("unit", it))
            with scratch() as d:
                roundtrip(ck, s, d / "run.h5")

        ck.case("unit:%s:%s" % (un.replace(" ", ""), kind), go)

    ck.parallel(unitcase, list(itertools.product(UNITS, ("scalar", "array", "pair"))))

    # D. labels and run information
    def metas(ck, it):
        labels, info = it

        def go():
            s = filled(len(labels), 2 * len(labels), 2, [ITEMS["flux"], ITEMS["energy"]], labels, info)
            ck.state(("meta", repr(it)))
            with scratch() as d:
                roundtrip(ck, s, d / "run.h5")

        ck.case("meta:%s:%s" % ("|".join(labels), ",".join(sorted(map(str, info)))), go)

    LAB = (["a", "b", "c"], ["log10(norm)", "index", "log(E)"], ["same", "same", "same"], ["", " ", "x" * 200],
           ["$\\alpha$", "\u03b2 par", "c/d.e"], ["par10", "par1", "par0"])
    INFO = ({}, {"n_run": 5, "p0": [1.0, 2.0, 3.0], "guess": True, "none": None}, {"text": "a run", "unicode": "\u03b1"},
            {"array": np.arange(4.0), "f": np.float64(2.5), "big": 2**40, "neg": -1, "nan_free": [1e-300, 1e300]},
            {"nested": {"a": 1}, "tuple": (1, 2), "empty_list": []},
            {"label": "mine", "chain": "c", "unit": "erg"})
    LAB += (["p%d" % i for i in range(12)], ["only one"], ["p%d" % i for i in range(101)] if not ck.quick else ["b", "a"])
    # every character at the start, within and at the end of a label, and alone
    chars = [chr(c) for c in list(range(32, 127)) + [9, 10, 0xB5, 0x3B1, 0x2299, 0x1F30C]]
    single = [([c + "x", "a" + c + "b", "y" + c], INFO[1]) for c in chars] + [([c, c + c, "a" + c + c + "b"], {}) for c in chars]
    ck.parallel(metas, list(itertools.product(LAB, INFO)) + single)

    # E. data tables
    def datas(ck, it):
        n, ul, sed, cl, eu, groups = it

        def go():
            t = C.data_table(n, ul, sed, cl, u.Unit(eu))
            if groups:
                t["group"] = [i % 2 for i in range(n)] if groups == 1 else [7] * n
            s, _ = lik.make_sampler(t, lambda p, data: (C.fluxes(p, data["energy"].to("TeV").value) * C.FU), [2.2, 1.9]
                                    ) if not sed else lik.make_sampler(
                t, lambda p, data: (C.fluxes(p, data["energy"].to("TeV").value) * C.FU * data["energy"] ** 2).to(
                    "erg/(cm2 s)"), [2.2, 1.9])
            pts = np.array([[[2.2, 1.9], [2.0, 2.0], [1.0, 1.5], [3.0, 2.5]]])
            lp, bl = s.compute_log_prob(pts[0])
            C.stored(s, pts, [lp], [[[bl[w][0]] for w in range(4)]])
            s.run_info = {"n_run": 1}
            ck.state(("data", it))
            with scratch() as d:
                r = roundtrip(ck, s, d / "run.h5")
            # the data read back define the same likelihood
            s2, _ = lik.make_sampler(r.data, s.modelfn, [2.2, 1.9])
            lp2, _ = s2.compute_log_prob(pts[0])
            if not np.allclose(lp, lp2, rtol=1e-12, atol=0):
                raise Violation("log-likelihood %s with the data read back, %s with the data saved" % (lp2, lp))

        ck.case("data:%d:%s:%s:%s:%s:%d" % it, go)

    ck.parallel(datas, list(itertools.product((1, 2, 5), (False, True), (False, True), (0.9, 0.95), ("TeV", "keV", "erg"),
                                              (0, 1, 2))))

    # F. histories of file operations
    def hist(ck, it):
        word, start, name = it

        def go():
            A = real_run("pair", nd=2, nw=4)
            B = real_run("scalarq", nd=1, nw=4, steps=3)
            sam = {"A": A, "B": B}
            snaps = {k: snap(v) for k, v in sam.items()}
            with scratch() as d:
                path = d / name
                raw = b"not a run\n" if start == "bytes" else None
                holds = None
                if start == "bytes":
                    path.write_bytes(raw)
                elif start == "empty":
                    path.write_bytes(b"")
                    raw = b""
                elif start == "run":
                    with lik.quiet():
                        save_run(path, B)
                    holds = "B"
                other = d / "other.h5"
                other.write_bytes(b"unrelated")
                for op in word:
                    was = path.read_bytes() if path.exists() else None
                    if op[0] in "sS":
                        arg = path if op[2] == "P" else str(path)
                        with lik.quiet():
                            if op[0] == "s":
                                save_run(arg, sam[op[1]])
                            else:
                                save_run(arg, sam[op[1]], clobber=True)
                        if was is not None and op[0] == "s":
                            if path.read_bytes() != was:
                                raise Violation("an existing file was altered without overwriting")
                        else:
                            holds = op[1]
                    elif op[0] == "r":
                        if holds is None:
                            if not isinstance(observe(read_run, str(path)), Raised):
                                raise Violation("a run was read from a file that holds none")
                        else:
                            read_run(path if op[1] == "P" else str(path))
                    ck.step()
                    if op[0] == "r" and was is not None and path.read_bytes() != was:
                        raise Violation("reading altered the file")
                    if holds is not None:
                        check_read(read_run(str(path)), sam[holds], "after %s: " % op)
                    if other.read_bytes() != b"unrelated" or sorted(p.name for p in d.iterdir()) != sorted(
                            {"other.h5"} | ({name} if (was is not None or path.exists()) else set())):
                        raise Violation("other files were touched: %s" % sorted(p.name for p in d.iterdir()))
                    for k, v in sam.items():
                        if not snap_equal(snaps[k], snap(v)):
                            raise Violation("sampler %s was altered" % k)
                    ck.state((start, holds, op))

        ck.case("files:%s:%s:%s" % (start, name, ".".join(word)), go)

    OPS = ("sAs", "SAs", "sBP", "SBP", "rs")
    depth = 3 if ck.quick else 4
    ck.parallel(hist, [(w, st, n) for w in histories(OPS, depth) for st in ("absent", "bytes", "run")
                       for n in (("run.h5",) if len(w) == depth else ("run.h5", "my.run.hdf5"))]
                + [(w, "empty", "run.h5") for w in histories(OPS, 2)])

    # G. file names without the required ending are refused and nothing is touched
    def names(ck, it):
        name, exists, clobber = it

        def go():
            s = real_run("array")
            with scratch() as d:
                p = d / name
                if exists:
                    p.write_bytes(b"x")
                r = observe(save_run, str(p), s, clobber=clobber)
                if not (isinstance(r, Raised) and r.kind == "ValueError"):
                    raise Violation("file name %r: %r" % (name, r))
                left = {q.name: q.read_bytes() for q in d.iterdir()}
                if left != ({name: b"x"} if exists else {}):
                    raise Violation("files %r after a refused save" % sorted(left))
                ck.state(("name", it))

        ck.case("name:%s:%d:%d" % it, go)

    ck.parallel(names, list(itertools.product(("run", "run.dat", "run.h5.bak", "run.hdf", "run.h5x"), (0, 1), (0, 1))))

    # H. results computed from the run read back
    def results(ck, it):
        st, data, kind = it

        def go():
            s = real_run(st, data=data, steps=3, prior="none")
            s.run_info = dict(s.run_info)
            with scratch() as d:
                with lik.quiet():
                    save_run(d / "r.h5", s)
                r = read_run(d / "r.h5", modelfn=s.modelfn if kind in ("curve", "curveconf") else None)
                ck.state(("res", it))
                if kind == "ml":
                    a, b = find_ML(s, 0), find_ML(r, 0)
                    for x, y, n in ((a[0], b[0], "probability"), (a[1], b[1], "parameters"), (a[2], b[2], "errors"),
                                    (a[3][0], b[3][0], "energies"), (a[3][1], b[3][1], "model")):
                        dd = same(y, x)
                        if dd:
                            raise Violation("best-fit %s: %s" % (n, dd))
                elif kind == "table":
                    ta, tb = [save_results_table(str(d / n), x) for n, x in (("a", s), ("b", r))]
                    if list(ta["label"]) != list(tb["label"]):
                        raise Violation("table rows %s instead of %s" % (list(tb["label"]), list(ta["label"])))
                    for c in ("median", "unc_lo", "unc_hi"):
                        dd = same(np.array(tb[c]), np.array(ta[c]))
                        if dd:
                            raise Violation("column %s: %s" % (c, dd))
                    for k in ("ML_pars", "MaxLogLikelihood", "BIC", "n_samples"):
                        dd = same(tb.meta[k], ta.meta[k])
                        if dd:
                            raise Violation("table %s: %s" % (k, dd))
                else:
                    def draw(x):
                        np.random.seed(5)
                        with lik.quiet():
                            f = {"fit": lambda: plot_fit(x, 0), "conf": lambda: plot_fit(x, 0, confs=[2, 1]),
                                 "curve": lambda: plot_fit(x, 0, n_samples=0, plotdata=False,
                                                           e_range=[0.3 * u.TeV, 20 * u.TeV], e_npoints=7),
                                 "chain": lambda: plot_chain(x, 1), "corner": lambda: plot_corner(x)}[kind]()
                        out = lines(f)
                        plt.close("all")
                        return out

                    dd = same_figure(draw(r), draw(s))
                    if dd:
                        raise Violation("plot of the run read back: %s" % dd)

        ck.case("results:%s:%s:%s" % it, go)

    ck.parallel(results, [(st, da, k) for st in ("array", "comp", "pair", "mixed", "scalarq", "same", "fluxunit", "listpair")
                          for da in ("df", "sed") for k in ("ml", "table", "fit", "conf", "curve", "chain", "corner")])
