"""C13: validated data equal the input table under every accepted column format."""
TECHNIQUE = ("exhaustive enumeration of column formats, units, row orders, file formats and table combinations on the "
             "real validate_data_table; oracle = abstract rows (plain numbers) each table was written from")
NOTE = ("Full product of flux-error, energy-range, limit-flag, limit-value, confidence-level, spectrum-family, table-class "
        "and requested-type formats for 4 rows; all unit pairs; all permutations of 4-5 rows; all ordered selections of "
        "1-3 tables out of 8 (thorough 4 of 8); written/read back as ECSV and IPAC.")

import itertools

import numpy as np
from astropy import units as u
from astropy.table import QTable, Table

from mc import env  # noqa
from mc import tables as T
from mc.common import Raised, observe
from mc.harness import Violation
from naima.utils import validate_data_table

MODES = (None, True, False)


def base_rows(fam, n=4, e0=3e11, tie=False):
    """n rows in plain eV units, energies e0*..., values without pattern."""
    rows = []
    for i in range(n):
        e = e0 * (1.0, 2.6, 11.0, 13.5, 71.0, 300.0)[i]
        if tie and i == 2:
            e = rows[1]["e"]
        f = 7e-24 * (1.9, 1.1, 0.43, 0.57, 0.2, 0.05)[i] * (e / e0) ** -1.3
        if T.is_sed(fam):
            f *= e * e
        if fam[1] == "p":
            f *= 3e43
        rows.append(dict(e=e, f=f, elo=f * (0.11 + 0.03 * i), ehi=f * (0.3 - 0.02 * i), dlo=e * (0.04 + 0.03 * i),
                         dhi=e * (0.21 - 0.02 * i), ul=i in (1, 3), ful=f * (1.7 + 0.2 * i)))
    return rows


def check_tables(ck, tabs, mode, key, as_list=True):
    """tabs: list of (table, rows, cl, family, tag or None)."""
    before = [T.snap(t[0]) for t in tabs]
    arg = [t[0] for t in tabs] if as_list else tabs[0][0]
    v = validate_data_table(arg, sed=mode) if mode is not None else validate_data_table(arg)
    ck.step()
    sed = T.is_sed(tabs[0][3]) if mode is None else mode
    want = []
    for i, (t, rows, cl, fam, tag) in enumerate(tabs):
        tf, out = T.expect(rows, fam, cl, sed, i)
        if tag is not None:
            for r, g in zip(out, tag):
                r["g"] = g
        want += out
    tf = T.conv(tabs[0][3], sed)[0]
    try:
        got = T.read(v, tf)
    except (KeyError, u.UnitsError) as e:
        raise Violation("validated table has no usable form: %s %s" % (type(e).__name__, e))
    d = T.rows_diff(got, want)
    if d:
        raise Violation("%s: %s" % (key, d))
    for (t, *_), b in zip(tabs, before):
        if T.snap(t) != b:
            raise Violation("%s: the input table was modified" % key)
    ck.outcome([(sorted(r.items())) for r in got])
    return v


def run(ck):
    ck.bounds = dict(rows="3-5", tables="1-3 (thorough 4)", formats="full product")
    fams = ("df", "sf", "dp", "sp")

    # A. full product of the column formats
    prod = list(itertools.product(fams, T.FERR, T.EFMT, T.ULF, (False, True), (None, 0.95, 0.68), (Table, QTable), MODES))

    def one(ck, it):
        fam, ferr, efmt, ulf, ful, cl, cls, mode = it
        key = "fmt:%s:%s:%s:%s:%s:%s:%s:%s" % (fam, ferr, efmt, ulf, ful, cl, cls.__name__, mode)

        def go():
            t, rows, c = T.write(base_rows(fam), fam, ferr, efmt, ulf, ful, cl, cls)
            ck.state(it)
            check_tables(ck, [(t, rows, c, fam, None)], mode, key, as_list=cl is None)

        ck.case(key, go)

    ck.parallel(one, prod)

    # limit values given for no or all rows, NaN fluxes where a limit is given, one to six rows
    def extra(ck, it):
        fam, ferr, efmt, n, uls, nanf = it
        key = "limits:%s:%s:%s:%d:%s:%s" % (fam, ferr, efmt, n, "".join("01"[x] for x in uls), nanf)

        def go():
            rows = base_rows(fam, n)
            for r, x in zip(rows, uls):
                r["ul"] = x
                if x and nanf:
                    r["f"] = r["elo"] = r["ehi"] = float("nan")
            for ulf, ful in itertools.product(("int", "bool", "str"), (False, True)):
                t, rw, c = T.write(rows, fam, ferr, efmt, ulf, ful)
                ck.state((it, ulf, ful))
                check_tables(ck, [(t, rw, c, fam, None)], None, key + ulf + str(ful), as_list=False)

        ck.case(key, go)

    items = []
    for n in range(1, 5 if ck.quick else 7):
        for uls in itertools.product((False, True), repeat=n):
            for nanf in (False, True):
                items += [("df", "asym", "none", n, uls, nanf), ("sp", "sym", "edges", n, uls, nanf)]
    ck.parallel(extra, items)

    # A2. unusual numbers in any of the columns, in one row or in all
    odd = {"f0": ("f", 0.0), "f-": ("f", -0.7), "ftiny": ("f", 1e-30), "fhuge": ("f", 1e30), "ful0": ("ful", 0.0),
           "ful<": ("ful", 1e-3), "elo>": ("elo", 3.0), "ehi>": ("ehi", 5.0), "elo0": ("elo", 0.0), "ehi0": ("ehi", 0.0),
           "elo-": ("elo", -0.1), "dlo0": ("dlo", 0.0), "dhi0": ("dhi", 0.0), "dlo>": ("dlo", 1.5), "dhi>": ("dhi", 7.0),
           "elonan": ("elo", float("nan")), "ehiinf": ("ehi", float("inf"))}

    def odd_values(ck, it):
        fam, ferr, efmt, pair, where, mode = it
        key = "odd:%s:%s:%s:%s:%s:%s" % (fam, ferr, efmt, "+".join(pair), where, mode)

        def go():
            rows = base_rows(fam)
            for k, r in enumerate(rows):
                if where in ("all", k):
                    e, f = r["e"], r["f"]
                    for o in pair:
                        c, x = odd[o]
                        r[c] = x * (e if c[0] == "d" else f)
            for ulf, ful in (("int", True), ("bool", False)):
                t, rw, c = T.write(rows, fam, ferr, efmt, ulf, ful)
                ck.state((it, ulf, ful))
                check_tables(ck, [(t, rw, c, fam, None)], mode, key + ulf + str(ful), as_list=False)

        ck.case(key, go)

    pairs = [(o,) for o in odd] + [p for p in itertools.combinations(odd, 2) if odd[p[0]][0] != odd[p[1]][0]]
    ck.parallel(odd_values, [(fam, "asym", efmt, pr, w, m) for fam in fams for efmt in ("errors", "edges") for pr in pairs
                             for w in ((0, 2, "all") if len(pr) == 1 or not ck.quick else (2,)) for m in MODES])
    ck.parallel(odd_values, [(fam, fe, efmt, pr, w, m) for fam in fams for fe, efmt in
                             (("sym", "error"), ("sym", "width"), ("sym", "none"), ("asym", "error"), ("asym", "none"))
                             for pr in pairs if len(pr) == 1 or not ck.quick for w in (0, 2, "all") for m in MODES])

    # B. every pair of units for values, errors and edges
    def unit(ck, it):
        fam, fu, fu2, eu, eu2, mode = it
        key = "units:%s:%s:%s:%s:%s:%s" % (fam, fu, fu2, eu, eu2, mode)

        def go():
            for ferr, efmt in (("sym", "width"), ("asym", "errors"), ("asym", "edges"), ("sym", "error")):
                t, rows, c = T.write(base_rows(fam), fam, ferr, efmt, "bool", True, 0.9, QTable if mode else Table,
                                     eunit=eu, eunit2=eu2, funit=fu, funit2=fu2)
                ck.state((it, efmt))
                check_tables(ck, [(t, rows, c, fam, None)], mode, key)

        ck.case(key, go)

    items = []
    for fam in fams:
        for fu, fu2 in itertools.product(T.UNITS[fam], repeat=2):
            items += [(fam, fu, fu2, u.TeV, u.keV, m) for m in MODES]
        for eu, eu2 in itertools.product(T.EUNITS, repeat=2):
            items += [(fam, T.UNITS[fam][1], T.UNITS[fam][0], eu, eu2, m) for m in MODES]
    ck.parallel(unit, items)

    # C. every order of the rows
    def order(ck, it):
        perm, efmt, ferr, tie, cls, mode = it
        key = "order:%s:%s:%s:%s:%s:%s" % ("".join(map(str, perm)), efmt, ferr, tie, cls.__name__, mode)

        def go():
            base = base_rows("df", len(perm), tie=tie)
            t, rows, c = T.write([base[i] for i in perm], "df", ferr, efmt, "int", True, 0.8, cls)
            ck.state(it)
            check_tables(ck, [(t, rows, c, "df", None)], mode, key)

        ck.case(key, go)

    n = 4 if ck.quick else 5
    items = [(p, ef, fe, tie, cls, m) for p in itertools.permutations(range(n)) for ef in T.EFMT
             for fe in T.FERR for tie in (False, True) for cls in (Table, QTable) for m in (None, True)
             if not (tie and ef == "none")]
    ck.parallel(order, items)

    # D. through files
    def files(ck, it):
        fmt, fam, ferr, efmt, ulf, ful, cl, mode = it
        key = "file:%s:%s:%s:%s:%s:%s:%s:%s" % it

        def go():
            t, rows, c = T.write(base_rows(fam), fam, ferr, efmt, ulf, ful, cl, Table)
            ck.state(it)
            t2 = T.through_file(t, fmt)
            if fmt == "ipac" and ful:
                # IPAC has null values: the column comes back masked, which is another valid input
                pass
            check_tables(ck, [(t2, rows, c, fam, None)], mode, key)

        ck.case(key, go)

    items = [(fmt, fam, fe, ef, ul, ful, cl, m) for fmt in ("ecsv", "ipac") for fam in fams for fe in T.FERR
             for ef in T.EFMT for ul in ("no", "int", "str") + (("bool",) if fmt == "ecsv" else ())
             for ful in (False, True) for cl in (None, 0.95) for m in ((None,) if ck.quick else MODES)]
    ck.parallel(files, items)

    # E. several tables
    def pool(fam2):
        out = []
        d, s = "d" + fam2, "s" + fam2
        spec = [
            (d, 4, 3e11, "sym", "none", "no", False, None, Table, u.TeV, 0, None),
            (s, 3, 2e9, "asym", "edges", "int", True, 0.95, QTable, u.GeV, 1, None),
            (d, 2, 1.1e3, "asym", "width", "bool", False, 0.99, Table, u.keV, 1, None),
            (s, 1, 5e12, "sym", "none", "str", True, None, QTable, u.erg, 2, None),
            (s, 4, 3e11, "sym", "errors", "bool", True, 0.5, Table, u.MeV, 3, None),
            (d, 3, 7e10, "asym", "none", "str", False, None, QTable, u.J, 2, None),
            (d, 4, 1e3, "sym", "none", "int", True, 0.9, QTable, u.keV, 0, [5, 7, 5, 7]),
            (s, 3, 4e11, "asym", "error", "no", False, 0.68, Table, u.eV, 0, [2, 2, 2]),
        ]
        for fam, n, e0, ferr, efmt, ulf, ful, cl, cls, eu, fi, grp in spec:
            t, rows, c = T.write(base_rows(fam, n, e0), fam, ferr, efmt, ulf, ful, cl, cls, eunit=eu,
                                 funit=T.UNITS[fam][fi % len(T.UNITS[fam])], group=grp)
            out.append((t, rows, c, fam, grp))
        return out

    pools = {k: pool(k) for k in "fp"}

    def multi(ck, it):
        k, sel, mode = it
        key = "multi:%s:%s:%s" % (k, "".join(map(str, sel)), mode)

        def go():
            ck.state(it)
            check_tables(ck, [pools[k][i] for i in sel], mode, key)

        ck.case(key, go)

    items = [(k, sel, m) for k in "fp" for r in range(1, 4 if ck.quick else 5)
             for sel in itertools.permutations(range(8), r) for m in MODES]
    items += [(k, (i, i), m) for k in "fp" for i in range(8) for m in MODES]
    if ck.quick:
        # flux tables fully, luminosity tables up to pairs
        items = [x for x in items if x[0] == "f" or len(x[1]) < 3]
    ck.parallel(multi, items)

    # F. a later change of the result or of the input does not reach the other
    def indep(which):
        t, rows, c = T.write(base_rows("df"), "df", "sym", "none", "bool", False, 0.9, which)
        b = T.snap(t)
        v = validate_data_table(t)
        for col in v.colnames:
            v[col][:] = v[col][0]
        if T.snap(t) != b:
            raise Violation("changing the validated table changes the input table")
        v = validate_data_table(t)
        g = T.read(v, "df")
        for col in t.colnames:
            t[col][:] = t[col][0]
        ck.step(2)
        if repr(T.read(v, "df")) != repr(g):
            raise Violation("changing the input table changes the validated table")

    for cls in (Table, QTable):
        ck.case("independent:%s" % cls.__name__, indep, cls)
