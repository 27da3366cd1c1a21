"""C14: validation is idempotent and independent of row and table order."""
TECHNIQUE = ("exhaustive enumeration of validation histories (words of requested types over every column format), of all "
             "row permutations and of all splittings of a table into tables, on the real code; oracle = abstract rows, "
             "likelihoods compared between all arrangements of the same rows")
NOTE = ("Words of up to 3 (thorough 5) re-validations over every format and over concatenations; save_run/read_run round "
        "trips; all 24 (120) orders of 4 (5) rows x all assignments of the rows to up to 3 tables of different formats.")

import itertools
import os
import tempfile

import numpy as np
from astropy import units as u
from astropy.table import QTable, Table

from mc import env  # noqa
from mc import tables as T
from mc.lik import loglikes, make_sampler, quiet
from mc.harness import Violation
from naima.analysis import read_run, save_run
from naima.core import run_sampler
from naima.utils import validate_data_table
from .c13 import base_rows

MODES = (None, True, False)
FAMS = ("df", "sf", "dp", "sp")


def expected(tabs, sed):
    want = []
    for i, (t, rows, cl, fam, tag) in enumerate(tabs):
        tf, out = T.expect(rows, fam, cl, sed, i)
        if tag is not None:
            for r, g in zip(out, tag):
                r["g"] = g
        want += out
    return T.conv(tabs[0][3], sed)[0], want


def need_rows(v, tabs, sed, what):
    tf, want = expected(tabs, sed)
    try:
        got = T.read(v, tf)
    except (KeyError, u.UnitsError) as e:
        raise Violation("%s: no usable form: %s %s" % (what, type(e).__name__, e))
    d = T.rows_diff(got, want)
    if d:
        raise Violation("%s: %s" % (what, d))


def model(pars, data):
    """A power law in photons, at the energies of the data."""
    e = data["energy"].to("eV").value
    return (pars[0] * 1e-24 * (e / 3e11) ** (-pars[1])) * T.CANON["df"]


def model_sed(pars, data):
    e = data["energy"].to("eV").value
    return ((pars[0] * 1e-24 * (e / 3e11) ** (-pars[1])) * e**2 * T.CANON["sf"]).to("erg/(cm2 s)")


PARS = [(13.0, 1.3), (7.0, 1.2), (2.0, 2.0), (40.0, 0.9)]


def run(ck):
    ck.bounds = dict(word_length=3 if ck.quick else 5, rows=4 if ck.quick else 5, tables=3)

    # words of re-validations ------------------------------------------------
    def words(ck, it):
        fam, ferr, efmt, ulf, ful, cl, cls = it
        key = "words:%s:%s:%s:%s:%s:%s:%s" % (fam, ferr, efmt, ulf, ful, cl, cls.__name__)

        def go():
            t, rows, c = T.write(base_rows(fam), fam, ferr, efmt, ulf, ful, cl, cls)
            tabs = [(t, rows, c, fam, None)]
            walk([], t, tabs, T.is_sed(fam))

        def walk(word, v, tabs, sed):
            for m in MODES:
                s2 = sed if m is None else m
                before = T.snap(v)
                w = validate_data_table(v, sed=m) if len(word) % 2 else validate_data_table([v], sed=m)
                ck.step()
                ck.state((it, word, m))
                need_rows(w, tabs, s2, "after %s" % (word + [m],))
                if T.snap(v) != before:
                    raise Violation("validation %s modified the table it was given" % (word + [m],))
                if len(word) + 1 < (3 if ck.quick else 5):
                    walk(word + [m], w, tabs, s2)

        ck.case(key, go)

    items = list(itertools.product(FAMS, T.FERR, T.EFMT, ("no", "int", "str") if ck.quick else T.ULF, (False, True),
                                   (None, 0.95), (Table, QTable)))
    if ck.quick:
        items = [x for i, x in enumerate(items) if x[6] is Table or x[0] in ("df", "sp")]
    else:
        items = [x for x in items if x[6] is Table]
    ck.parallel(words, items)

    # concatenations, re-validated whole or together with others ---------------
    def pool():
        spec = [("df", 4, 3e11, "sym", "none", "no", False, None, u.TeV),
                ("sf", 3, 2e9, "asym", "edges", "int", True, 0.95, u.GeV),
                ("df", 2, 1.1e3, "asym", "width", "bool", False, 0.99, u.keV),
                ("sf", 4, 3e11, "sym", "errors", "str", True, 0.5, u.MeV)]
        out = []
        for fam, n, e0, ferr, efmt, ulf, ful, cl, eu in spec:
            t, rows, c = T.write(base_rows(fam, n, e0), fam, ferr, efmt, ulf, ful, cl, QTable, eunit=eu)
            out.append((t, rows, c, fam, None))
        return out

    P = pool()

    def concat(ck, it):
        sel, m1, m2, m3 = it
        key = "concat:%s:%s:%s:%s" % ("".join(map(str, sel)), m1, m2, m3)

        def go():
            tabs = [P[i] for i in sel]
            ck.state(it)
            sed = T.is_sed(tabs[0][3]) if m1 is None else m1
            v = validate_data_table([t[0] for t in tabs], sed=m1)
            need_rows(v, tabs, sed, "first")
            for arg, m in ((v, m2), ([v], m3)):
                w = validate_data_table(arg, sed=m)
                need_rows(w, tabs, sed if m is None else m, "again")
            # the validated table together with a new one
            other = (P[0][0], P[0][1], P[0][2], P[0][3], [1] * len(P[0][1]))
            w = validate_data_table([v, P[0][0]], sed=m2)
            s2 = sed if m2 is None else m2
            need_rows(w, tabs + [other], s2, "with another table")
            # ... and after it; types and tags are those of the tables
            w = validate_data_table([P[0][0], v], sed=m3)
            tagged = [(t, rows, c, fam, [i] * len(rows)) for i, (t, rows, c, fam, _) in enumerate(tabs)]
            first = (P[0][0], P[0][1], P[0][2], P[0][3], [0] * len(P[0][1]))
            need_rows(w, [first] + tagged, T.is_sed(P[0][3]) if m3 is None else m3, "after another table")
            ck.step(5)

        ck.case(key, go)

    items = [(sel, m1, m2, m3) for r in (2, 3, 4) for sel in itertools.permutations(range(4), r)
             for m1 in MODES for m2 in MODES for m3 in (MODES if not ck.quick else (m2,))]
    ck.parallel(concat, items)

    # tables of measurements at the same energies: no row is lost or merged, in any order of the tables ------
    def coincide(ck, it):
        st, order, m = it
        key = "coincide:%s:%s:%s" % ("|".join(",".join(x) for x in st), "".join(map(str, order)), m)

        def go():
            tabs = []
            for k, states in enumerate(st):
                rows = base_rows("df", len(states), tie=False)
                for r, x in zip(rows, states):
                    r["ul"] = x == "limit"
                    if x == "zero":
                        r["f"] = 0.0
                    elif x == "neg":
                        r["f"] *= -1
                    elif x == "other":
                        r["f"] *= 1.7
                        r["ehi"] *= 0.6
                    r["ful"] = r["ful"] * (1 if x != "other" else 2)
                t, rw, c = T.write(rows, "df", "asym", "errors", "bool", True, 0.95, (Table, QTable)[k % 2],
                                   eunit=(u.TeV, u.keV)[k % 2] if len(st) < 3 else u.TeV)
                tabs.append((t, rw, c, "df", None))
            tabs = [tabs[i] for i in order]
            ck.state(it)
            ck.step()
            v = validate_data_table([t[0] for t in tabs], sed=m)
            sed = False if m is None else m
            if len(v) != sum(len(t[1]) for t in tabs):
                raise Violation("%d rows out of tables of %s rows" % (len(v), [len(t[1]) for t in tabs]))
            # rows at the same energy may come in any order
            tf, want = expected(tabs, sed)
            got = T.read(v, tf)

            def srt(rows):
                return sorted(rows, key=lambda r: (round(np.log(r["e"]) * 1e6), r["g"]))

            d = T.rows_diff(srt(got), srt(want))
            if d:
                raise Violation("tables at the same energies: %s" % d)

        ck.case(key, go)

    S = ("ok", "zero", "neg", "limit", "other")
    n2 = list(itertools.product(S, repeat=2))
    items = [((a, b), o, m) for a in n2 for b in n2 for o in ((0, 1), (1, 0)) for m in ((None, True) if ck.quick else MODES)]
    items += [((("ok",) + (x,), (y, "ok"), (z, x)), o, m) for x in S for y in S for z in S
              for o in itertools.permutations(range(3)) for m in ((None,) if ck.quick else MODES)]
    ck.parallel(coincide, items)

    # parts of validated data: rows keep what they are, put together again they are the whole ------
    def parts(ck, it):
        sel, m1, m2 = it
        key = "parts:%s:%s:%s" % ("".join(map(str, sel)), m1, m2)

        def go():
            v = validate_data_table([P[i][0] for i in sel], sed=m1)
            whole = validate_data_table(v, sed=m2)
            tf = T.conv(P[sel[0]][3], T.is_sed(P[sel[0]][3]) if m1 is None else m1)[0] if m2 is None else T.conv(P[sel[0]][3], m2)[0]
            rows = T.read(whole, tf)
            n = len(v)
            g = np.array(v["group"])
            if n <= 6:
                masks = [np.array(b, bool) for b in itertools.product((0, 1), repeat=n) if any(b)]
            else:
                masks = [np.isin(g, c) for r in range(1, len(sel) + 1) for c in itertools.combinations(set(g), r)]
                masks += [np.isin(np.arange(n), c) for r in (1, 2, n - 1) for c in itertools.combinations(range(n), r)]
                masks += [(np.arange(n) >= a) & (np.arange(n) < b) for a in range(n) for b in range(a + 3, n)]
            ck.state(it)
            for k, mask in enumerate(masks):
                w = validate_data_table(v[mask], sed=m2)
                ck.step()
                d = T.rows_diff(T.read(w, tf), [r for r, x in zip(rows, mask) if x])
                if d:
                    raise Violation("rows %s of the validated data, validated: %s" % (np.flatnonzero(mask), d))
                if not mask.all() and (k % 7 == 0 or n <= 6):
                    w = validate_data_table([v[~mask], v[mask]], sed=m2)
                    ck.step()
                    d = T.rows_diff(T.read(w, tf), rows)
                    if d:
                        raise Violation("validated data split into rows %s and others: %s" % (np.flatnonzero(mask), d))

        ck.case(key, go)

    items = [(sel, m1, m2) for r in (1, 2, 3) for sel in itertools.permutations(range(4), r) for m1 in MODES for m2 in MODES
             if not ck.quick or r < 3 or (m1 is None) != (m2 is None)]
    ck.parallel(parts, items)

    # through a saved run ----------------------------------------------------------
    def saved(ck, it):
        sel, m1, m2 = it
        key = "saved:%s:%s:%s" % ("".join(map(str, sel)), m1, m2)

        def go():
            tabs = [P[i] for i in sel]
            sed = T.is_sed(tabs[0][3]) if m1 is None else m1
            s, pos = make_sampler([t[0] for t in tabs], model, np.array(PARS[0]), data_sed=m1)
            with quiet():
                s, pos = run_sampler(nrun=1, sampler=s, pos=pos)
            ck.state(it)
            ck.step(3)
            need_rows(s.data, tabs, sed, "sampler.data")
            with tempfile.TemporaryDirectory() as d:
                save_run(os.path.join(d, "r.h5"), s)
                r = read_run(os.path.join(d, "r.h5"), modelfn=model)
            need_rows(r.data, tabs, sed, "read_run().data")
            need_rows(validate_data_table(r.data, sed=m2), tabs, sed if m2 is None else m2, "validated read_run().data")
            a, b = loglikes([t[0] for t in tabs], model, PARS, data_sed=m1), loglikes(r.data, model, PARS, data_sed=m2)
            if not np.allclose(a, b, rtol=1e-9, atol=1e-9):
                raise Violation("likelihoods %r from the data of the saved run, %r from the original" % (b, a))

        ck.case(key, go)

    items = [(sel, m1, m2) for r in (1, 2, 3) for sel in itertools.permutations(range(4), r)
             for m1 in MODES for m2 in (MODES if r < 3 or not ck.quick else (None,))]
    ck.parallel(saved, items)

    # row orders and splittings ----------------------------------------------------
    n = 4 if ck.quick else 5
    fmts = [dict(ferr="asym", efmt="edges", ulf="int", ful=True, cls=Table, eunit=u.TeV, funit=None),
            dict(ferr="asym", efmt="errors", ulf="str", ful=False, cls=QTable, eunit=u.keV, funit=T.UNITS["df"][1]),
            dict(ferr="asym", efmt="errors", ulf="bool", ful=True, cls=Table, eunit=u.erg, funit=T.UNITS["df"][2])]

    def arranged(perm, assign, tie):
        base = base_rows("df", n, tie=tie)
        for r in base:
            r["ful"] = r["f"]
        groups = {}
        for i in perm:
            groups.setdefault(assign[i], []).append(base[i])
        out = []
        for k, (a, rows) in enumerate(sorted(groups.items())):
            t, rw, c = T.write(rows, "df", cl=0.95, **fmts[a])
            out.append((t, rw, c, "df", None))
        return out

    ref = {}
    for tie in (False, True):
        for mf in (model, model_sed):
            tabs = arranged(range(n), [0] * n, tie)
            ref[tie, mf] = loglikes([t[0] for t in tabs], mf, PARS)

    def arrange(ck, it):
        perm, assign, tie = it
        key = "arrange:%s:%s:%s" % ("".join(map(str, perm)), "".join(map(str, assign)), tie)

        def go():
            tabs = arranged(perm, assign, tie)
            ck.state(it)
            v = validate_data_table([t[0] for t in tabs])
            need_rows(v, tabs, False, "arranged")
            for mf, m in ((model, None), (model_sed, True)):
                got = loglikes([t[0] for t in tabs], mf, PARS, data_sed=m)
                ck.step(len(PARS))
                ck.outcome(["%.8e" % x for x in got])
                if not np.allclose(got, ref[tie, mf], rtol=1e-9, atol=1e-9):
                    raise Violation("likelihoods %r instead of %r for the rows in their original order"
                                    % (got, ref[tie, mf]))

        ck.case(key, go)

    assigns = sorted(set(itertools.product(range(3), repeat=n)))
    perms = list(itertools.permutations(range(n)))
    ident = tuple(range(n))
    rev = tuple(reversed(ident))
    items = [(p, a, False) for p in perms for a in assigns
             if not ck.quick or p in (ident, rev) or len(set(a)) == 1 or max(a) < 2]
    items += [(p, a, True) for p in perms for a in ([0] * n, [0, 1] * (n // 2) + [0] * (n % 2), [1, 1] + [0] * (n - 2))]
    items = [(p, tuple(a), t) for p, a, t in items]
    if not ck.quick:
        items = [x for x in items if not x[2] or True]
    ck.parallel(arrange, items)
