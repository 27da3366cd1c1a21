"""C23: the results table summarises exactly the stored samples."""
TECHNIQUE = ("exhaustive enumeration of stored runs in a real sampler (every ordering, tie and zero-probability pattern of "
             "the log-probabilities of small runs; shapes x value patterns x labels x model outputs x options) with the "
             "table and the written file compared with a plain-Python summary of the same samples; histories of writes")
NOTE = ("All weak orderings of up to 6 samples (2 steps x 3 walkers stored directly), all label sets of up to 3 from 9 labels, "
        "output sequences of up to 2 from 14 kinds, both step selections, three formats, histories of up to 3 writes.")

import itertools
import math

import numpy as np
from astropy import units as u
from astropy.table import Table

from checks.c22 import ITEMS, filled, scratch, snap, snap_equal
from mc import env  # noqa
from mc import chain as C
from mc import lik
from mc.common import observe, Raised
from mc.harness import Violation, histories
from naima import save_results_table
from naima.plot import find_ML


# ------------------------------------------------------------------ plain reference
def pct(vals, q):
    v = sorted(float(x) for x in vals)
    h = (len(v) - 1) * q / 100.0
    i = int(math.floor(h))
    return v[i] if i + 1 >= len(v) else v[i] + (v[i + 1] - v[i]) * (h - i)


def row(vals):
    m = pct(vals, 50)
    return m, m - pct(vals, 16), pct(vals, 84) - m


def number(x, unit):
    return float(x.to(unit).value) if isinstance(x, u.Quantity) else float(x)


def linear(label):
    """(name, function) of the linear form of a logarithmic parameter."""
    if "log10(" in label:
        f = lambda v: 10.0 ** v  # noqa
    elif "log(" in label:
        f = math.exp
    else:
        return None
    return label.split("(")[-1].split(")")[0], f


def expected(s, convert_log, last_step, include_blobs):
    """rows and free labels: outputs whose rows are not prescribed (one-element arrays)."""
    ch, lp, bl = s.get_chain(), s.get_log_prob(), s.get_blobs()
    ns, nw, nd = ch.shape
    use = [(st, w) for st in range(ns) for w in range(nw) if st == ns - 1 or not last_step]
    rows, free = [], Free()
    for k, lab in enumerate(s.labels):
        vals = [ch[i][k] for i in use]
        rows.append((lab,) + row(vals))
        if convert_log and linear(lab):
            n, f = linear(lab)
            rows.append((n,) + row([f(v) for v in vals]))
    units = {}
    if include_blobs:
        for k, b in enumerate(bl[-1][0]):
            name = "blob%d" % k
            if isinstance(b, (str, bytes, dict, type(None), tuple, list)):
                continue
            if np.ndim(b) and np.size(b) == 1:
                free.add(name)
                continue
            if np.ndim(b):
                continue
            un = b.unit if isinstance(b, u.Quantity) else None
            if un is not None:
                units[name + "_unit"] = un
            rows.append((name,) + row([number(bl[st][w][k], un) for st, w in use]))
            if getattr(b, "dtype", None) == np.float32:
                free.single.add(name)
    return rows, free, units, len(use)


class Free(set):
    """Outputs that may be reported or not; those of single precision"""

    def __init__(self):
        super().__init__()
        self.single = set()


def close(a, b, scale=0.0):
    return a == b or abs(a - b) <= 1e-9 * (abs(a) + abs(b)) / 2 + 1e-10 * scale or (a != a and b != b)


def check_rows(t, rows, free, what):
    got = sorted(((str(r["label"]), float(r["median"]), float(r["unc_lo"]), float(r["unc_hi"])) for r in t
                  if str(r["label"]) not in free), key=lambda r: (r[0], r[1:]))
    want = sorted(rows, key=lambda r: (r[0], r[1:]))
    if [g[0] for g in got] != [w[0] for w in want]:
        raise Violation("%s: rows %s instead of %s" % (what, [g[0] for g in got], [w[0] for w in want]))
    for g, w in zip(got, want):
        sc = max(map(abs, w[1:])) * (2e4 if g[0] in free.single else 1)
        for n, a, b in zip(("median", "lower uncertainty", "upper uncertainty"), g[1:], w[1:]):
            if not close(a, b, sc):
                raise Violation("%s: %s of %s is %r instead of %r" % (what, n, g[0], a, b))


def check_best(s, t, get, ndata, what):
    ch, lp = s.get_chain(), s.get_log_prob()
    best = lp.max()
    cand = [tuple(ch[i]) for i in zip(*np.where(lp == best))]
    ml = tuple(float(x) for x in get("ML_pars"))
    if not any(len(c) == len(ml) and all(close(a, b) for a, b in zip(c, ml)) for c in cand):
        raise Violation("%s: best-fit vector %s, best stored samples %s" % (what, ml, cand))
    if not close(float(get("MaxLogLikelihood")), best):
        raise Violation("%s: best log-likelihood %r instead of %r" % (what, get("MaxLogLikelihood"), best))
    bic = ch.shape[2] * math.log(ndata) - 2 * best
    if not close(float(get("BIC")), bic, 1.0):
        raise Violation("%s: BIC %r instead of %r" % (what, get("BIC"), bic))


FORMATS = ("ascii.ecsv", "ascii.ipac", "ascii")


def judge(ck, s, d, convert_log=True, last_step=False, include_blobs=True, format="ascii.ecsv", name="run", **kw):
    before = snap(s)
    with lik.quiet():
        t = save_results_table(str(d / name), s, format=format, convert_log=convert_log, last_step=last_step,
                               include_blobs=include_blobs, **kw)
    ck.step()
    if not snap_equal(before, snap(s)):
        raise Violation("writing the table altered the sampler")
    rows, free, units, n = expected(s, convert_log, last_step, include_blobs)
    check_rows(t, rows, free, "table")
    ext = "ecsv" if format == "ascii.ecsv" else "dat"
    path = d / ("%s_results.%s" % (name, ext))
    if not path.exists():
        raise Violation("no file %s but %s" % (path.name, [p.name for p in d.iterdir()]))
    f = Table.read(str(path), format=format)
    check_rows(f, rows, free, "file")
    for tab, what in ((t, "table"), (f, "file")):
        if format == "ascii":
            if what == "file":
                continue
            get = tab.meta.__getitem__
        elif format == "ascii.ipac":
            def get(k, tab=tab):
                v = tab.meta["keywords"][k]["value"]
                return eval(v) if isinstance(v, str) and v.startswith("[") else v
        else:
            get = tab.meta.__getitem__
        if format == "ascii.ipac" and what == "file":
            # header values are written as text
            if not close(float(get("MaxLogLikelihood")), s.get_log_prob().max()):
                raise Violation("file: best log-likelihood %r" % get("MaxLogLikelihood"))
            continue
        check_best(s, tab, get, len(s.data), what)
        if int(get("n_samples")) != n:
            raise Violation("%s: %r samples instead of %d" % (what, get("n_samples"), n))
        for k, un in units.items():
            if u.Unit(get(k)) != un:
                raise Violation("%s: %s is %r instead of %s" % (what, k, get(k), un))
    ck.outcome([(str(r["label"]), "%.6g" % r["median"]) for r in t])
    return t


LABELS = ("norm", "log10(norm)", "log(norm)", "index", "my log10(E)", "log10(E_c/TeV)", "x log(B)", "$\\log$", "logx")
KINDS = ("energy", "float", "npfloat", "int", "vary", "flux", "pair", "one", "text", "none", "ndarray", "matrix", "f32",
         "dict")
PATTERNS = {
    "distinct": lambda n: [((5 * i + 2) % n) * 0.37 + 0.11 for i in range(n)],
    "const": lambda n: [1.25] * n,
    "dups": lambda n: [float(i % 2) for i in range(n)],
    "neg": lambda n: [-1.5 * i - 0.2 for i in range(n)],
    "wide": lambda n: [10.0 ** (2.2 * i / n - 0.4) for i in range(n)],
    "skew": lambda n: [0.0] * (n - 1) + [50.0],
    "rev": lambda n: [1.0 / (1 + i) for i in range(n)],
}


def weak_orders(n):
    """All ways of ranking n samples with ties."""
    for r in itertools.product(range(n), repeat=n):
        if set(r) == set(range(max(r) + 1)):
            yield r


def run(ck):
    ck.bounds = dict(samples="<= 6 (all weak orderings)", labels=len(LABELS), kinds=len(KINDS), formats=len(FORMATS),
                     patterns=len(PATTERNS))

    # A. every ordering, tie and zero-probability pattern of the log-probabilities
    def order(ck, it):
        ranks, shape, zero = it

        def go():
            ns, nw, nd = shape
            s = filled(nd, nw, ns, [ITEMS["energy"]])
            lp = np.array([-np.inf if (zero and r == 0) else -3.0 + r * 1.7 for r in ranks]).reshape(ns, nw)
            ch = s.get_chain().copy()
            C.stored(s, ch, lp, [[[ITEMS["energy"](st * nw + w)] for w in range(nw)] for st in range(ns)])
            ck.state(("order", it))
            ml = find_ML(s, None)
            cand = [tuple(ch[i]) for i in zip(*np.where(lp == lp.max()))]
            if ml[0] != lp.max() or tuple(ml[1]) not in cand:
                raise Violation("best fit %r at %r, stored best %r at %s" % (ml[0], ml[1], lp.max(), cand))
            if max(ranks) > 1 or zero == 0:
                with scratch() as d:
                    judge(ck, s, d, last_step=bool(sum(ranks) % 2))

        ck.case("order:%s:%s:%d" % ("".join(map(str, ranks)), "x".join(map(str, shape)), zero), go)

    items = [(r, (2, 2, 1), z) for r in weak_orders(4) for z in (0, 1)]
    items += [(r, (3, 2, 1), 0) for r in itertools.permutations(range(6))][::1 if not ck.quick else 2]
    items += [(r, (1, 6, 3), 0) for r in itertools.product((0, 1), repeat=6) if set(r) == {0, 1}]
    if not ck.quick:
        items += [(r, (3, 2, 1), z) for r in weak_orders(6) for z in (0, 1)]
        items += [(r, (1, 4, 2), z) for r in weak_orders(4) for z in (0, 1)]
    ck.parallel(order, items)

    # B. shapes x value patterns x options
    shapes = [(1, 4, 2), (2, 4, 2), (5, 4, 1), (3, 6, 3), (7, 8, 2), (2, 2, 1), (1, 2, 1), (10, 10, 1)]

    def values(ck, it):
        sh, pa, cl, ls, ib, fm = it

        def go():
            ns, nw, nd = sh
            s = filled(nd, nw, ns, [ITEMS["flux"], ITEMS["energy"], ITEMS["float"]],
                       ["log10(norm)", "index", "log(E)"][:nd])
            n = ns * nw
            ch = np.array([[(-1) ** k * 0.1 * k + v for k in range(nd)] for v in PATTERNS[pa](n)]).reshape(ns, nw, nd)
            C.stored(s, ch, s.get_log_prob().copy(),
                     [[[ITEMS["flux"](st + w), PATTERNS[pa](n)[st * nw + w] * u.erg, float(st - w)] for w in range(nw)]
                      for st in range(ns)])
            ck.state(("values", it))
            with scratch() as d:
                judge(ck, s, d, cl, ls, ib, fm)

        ck.case("values:%s:%s:%d:%d:%d:%s" % (("x".join(map(str, sh)),) + it[1:]), go)

    ck.parallel(values, [(sh, pa, cl, ls, ib, fm) for sh in shapes for pa in PATTERNS for cl in (True, False)
                         for ls in (True, False) for ib in (True, False) for fm in FORMATS
                         if not ck.quick or fm == FORMATS[0] or (sh in shapes[1:3] and pa == "distinct")])

    # C. labels
    def labels(ck, it):
        labs, cl, ls = it

        def go():
            nd = len(labs)
            s = filled(nd, 2 * nd, 2, [ITEMS["flux"], ITEMS["energy"]], labs)
            ck.state(("labels", it))
            with scratch() as d:
                judge(ck, s, d, cl, ls)

        ck.case("labels:%s:%d:%d" % ("|".join(labs), cl, ls), go)

    ck.parallel(labels, [(l, cl, ls) for n in (1, 2, 3) for l in itertools.product(LABELS, repeat=n)
                         for cl, ls in ((True, True), (True, False), (False, False)) if n < 3 or cl and ls or not ck.quick])

    # D. model outputs
    def outs(ck, it):
        kinds, ls, fm = it

        def go():
            s = filled(2, 4, 3, [ITEMS[k] for k in kinds])
            ck.state(("outs", it))
            with scratch() as d:
                judge(ck, s, d, True, ls, True, fm)

        ck.case("outs:%s:%d:%s" % ("+".join(kinds), ls, fm), go)

    ck.parallel(outs, [(("flux",) + k, ls, fm) for n in (1, 2) for k in itertools.product(KINDS, repeat=n)
                       for ls in (True, False) for fm in FORMATS[:1 if n == 2 and ck.quick else 3]])

    # E. data tables of several sizes, and run information
    def info(ck, it):
        n, ul, inf, fm = it

        def go():
            s, _ = lik.make_sampler(C.data_table(n, ul), lambda p, data: C.fluxes(p, data["energy"].to("TeV").value) * C.FU,
                                    [2.2, 1.9])
            ch = np.array([[[2.2, 1.9], [2.0, 2.0], [1.0, 1.5], [3.0, 2.5]]])
            C.stored(s, ch, [[-1.0, -2.0, -3.0, -0.5]], [[[ITEMS["energy"](w)] for w in range(4)]])
            s.run_info = dict(INFO[inf])
            ck.state(("info", it))
            with scratch() as d:
                t = judge(ck, s, d, format=fm)
                for k, v in INFO[inf].items():
                    got = t.meta["keywords"][k]["value"] if fm == "ascii.ipac" else t.meta.get(k, "missing")
                    if not (np.array_equal(np.array(got, dtype=object), np.array(v, dtype=object)) or str(got) == str(v)):
                        raise Violation("run information %s is %r instead of %r" % (k, got, v))

        ck.case("info:%d:%s:%s:%s" % it, go)

    INFO = {"none": {}, "run": {"n_walkers": 4, "n_burn": 2, "p0": [2.2, 1.9], "guess": True,
                                "p0_burn_median": [2.0, 1.5], "n_run": 1},
            "numpy": {"p0": np.array([2.2, 1.9]), "f": np.float64(2.5), "i": np.int64(3), "text": "abc"}}
    ck.parallel(info, [(n, ul, i, fm) for n in (1, 2, 3, 5) for ul in (True, False) for i in INFO
                       for fm in FORMATS if n > 1 or not ul])

    # F. histories of writes to the same name
    def hist(ck, it):
        word = it

        def go():
            A = filled(2, 4, 2, [ITEMS["energy"]], ["a", "log10(b)"])
            ra = expected(A, True, False, True)
            import copy

            chA = (A.get_chain().copy(), A.get_log_prob().copy())
            with scratch() as d:
                path = d / "h_results.ecsv"
                content = None
                for op in word:
                    s = filled(2, 4, 2 if op[1] == "A" else 3, [ITEMS["energy"]],
                               ["a", "log10(b)"] if op[1] == "A" else ["c", "d"])
                    was = path.read_bytes() if path.exists() else None
                    if op[0] == "S" or was is None:
                        judge(ck, s, d, name="h", overwrite=op[0] == "S")
                        content = expected(s, True, False, True)
                    else:
                        r = observe(save_results_table, str(d / "h"), s)
                        if path.read_bytes() != was:
                            raise Violation("an existing table was altered without overwriting (%r)" % r)
                    check_rows(Table.read(str(path), format="ascii.ecsv"), content[0], content[1], "file after " + op)
                    ck.state(("hist", op, content[3]))

        ck.case("writes:%s" % ".".join(word), go)

    ck.parallel(hist, list(histories(("sA", "sB", "SA", "SB"), 3)))
