"""C11: EBL transmission is a proper absorption factor."""
TECHNIQUE = ("exhaustive enumeration of every tabulated redshift (with offsets around it) times every tabulated "
             "energy, mid points and values outside, on the real model against the raw table")
NOTE = ("All 399 tabulated redshifts x 500 tabulated energies, every redshift cell boundary, units, shapes and "
        "containers. Monotonicity in redshift holds to 2e-3: the published table itself scatters by that much.")

import itertools
import os

import numpy as np
from astropy import units as u
from astropy.table import Table

from mc import env  # noqa
from mc.common import Raised, observe
from mc.harness import Violation
from naima import models as M


def table():
    t = np.load(os.path.join(env.SRC, "naima", "data", "tau_dominguez11.npz"))["arr_0"]
    a = np.array([list(r) for r in t.tolist()])
    return a[:, 0], a[:, 1:]


def trans(m, e):
    r = observe(m.transmission, e)
    if isinstance(r, Raised):
        raise Violation("transmission(%s): %r" % (e, r))
    return np.asarray(u.Quantity(r).to("").value, float)


def run(ck):
    E, TAU = table()
    if E.shape != (500,) or TAU.shape != (500, 399) or abs(TAU[399, 99] - float(TAU[399, 99])) > 0:
        ck.case("table", lambda: (_ for _ in ()).throw(Violation("table of shape %s" % (TAU.shape,))))
    zs = np.round(np.arange(1, 400) * 0.01, 2)
    ck.bounds = dict(redshifts="0 and 0.01..3.99 in steps of 0.01, cell offsets, up to 10", energies=500)

    def table_sane():
        # fingerprint of physics: opacity grows with energy for every redshift, and in the
        # large with redshift
        if np.any(np.diff(np.minimum(TAU, 150), axis=0) < 0) or np.any(TAU < 0) or not np.all(np.isfinite(TAU)):
            raise Violation("tabulated opacity decreases with energy")
        if np.any(np.diff(np.exp(-TAU), axis=1) > 5e-4):
            raise Violation("tabulated opacity decreases with redshift")
        if not (0.8 < np.interp(1.0, E, TAU[:, 9]) < 1.5 and abs(E[0] - 1e-3) < 1e-9 and abs(E[-1] - 100) < 1e-9):
            raise Violation("table does not look like Dominguez et al. 2011")
        ck.state("table")
        ck.step()

    ck.case("table", table_sane)

    def nodes(ck, k):
        def go():
            z = zs[k]
            want = np.exp(-np.minimum(TAU[:, k], 150))
            m = M.EblAbsorptionModel(z)
            got = trans(m, E * u.TeV)
            ck.step()
            ck.state(("z", k))
            ck.outcome("%.8e" % got[300])
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-6, atol=1e-30):
                i = np.argmax(np.abs(got - want))
                raise Violation("z=%g, E=%g TeV: %r instead of %r" % (z, E[i], got[i], want[i]))
            # anything within half a step of a tabulated redshift is the same
            for dz in (-0.0049, -0.002, 0.003, 0.0049):
                if z + dz < 0.01:
                    continue
                g = trans(M.EblAbsorptionModel(z + dz), E[::10] * u.TeV)
                ck.step()
                ck.state(("z", k, dz))
                if not np.array_equal(g, got[::10]):
                    raise Violation("z=%g is not that of the closest redshift %g" % (z + dz, z))
            # between the nodes, outside
            mid = np.sqrt(E[1:] * E[:-1])
            g = trans(m, mid * u.TeV)
            ck.step()
            if np.any(g < 0) or np.any(g > 1) or not np.all(np.isfinite(g)):
                raise Violation("z=%g: not within [0, 1]: %r at %g TeV" % (z, g[(g > 1) | ~(g >= 0)][0], mid[(g > 1) | ~(g >= 0)][0]))
            lo, hi = want[1:] - 5e-3, want[:-1] + 5e-3
            if np.any((g < lo) | (g > hi)):
                i = np.argmax((g < lo) | (g > hi))
                raise Violation("z=%g, %g TeV: %g is not between its neighbours %g and %g" % (z, mid[i], g[i], want[i + 1], want[i]))
            out = np.array([1e-9, 1e-5, 5e-4, 0.000999999])
            g = trans(m, out * u.TeV)
            if np.any(g != 1):
                raise Violation("z=%g: %s below the absorption range" % (z, g))
            out = np.array([100 * (1 + 1e-9), 101, 300, 1e4, 1e9])
            g = trans(m, out * u.TeV)
            ck.step(2)
            if np.any(g > want[-1] * (1 + 1e-6)) or np.any(g < 0):
                raise Violation("z=%g: %s beyond the table, %g at its end" % (z, g, want[-1]))

        ck.case("z:%.2f" % zs[k], go)

    ck.parallel(nodes, range(399), chunks=48)

    def need_table(z, x, got, at):
        # redshifts half way between two tabulated ones are not asked for
        k = int(np.argmin(np.abs(zs - z)))
        want = np.exp(-np.minimum(TAU[at, k], 150))
        if not np.allclose(got, want, rtol=1e-6, atol=1e-30):
            i = int(np.argmax(np.abs(got - want)))
            raise Violation("z=%g, %g TeV: %r instead of %r, that of z=%g" % (z, x[i], got[i], want[i], zs[k]))

    # histories: many models of neighbouring redshifts in one process, in several orders
    def history(ck, it):
        lo, order_ = it

        def go():
            at = slice(3, None, 40)
            grid = [round(lo + 0.001 * i, 4) for i in range(0, 120) if (lo * 1000 + i) % 10 != 5]
            grid = {"up": grid, "down": grid[::-1], "stride": grid[::7] + grid[3::7] + grid[5::7] + grid[1::7],
                    "twice": [z for z in grid[::2] for _ in (0, 1)]}[order_]
            alive = []
            for z in grid:
                if not 0.01 <= z <= 3.995:
                    continue
                m = M.EblAbsorptionModel(z)
                need_table(z, E[at], trans(m, E[at] * u.TeV), at)
                ck.step()
                ck.state(("history", z, order_))
                alive.append((z, m))
            for z, m in alive[::5]:
                need_table(z, E[at], trans(m, E[at] * u.TeV), at)
                ck.step()

        ck.case("history:%s:%.2f" % (order_, lo), go)

    los = [round(0.1 * i, 1) for i in range(0, 40, 3 if ck.quick else 1)]
    for o in ("up", "down", "stride", "twice"):
        ck.parallel(history, [(lo, o) for lo in los])

    # order in redshift and the negligible ones
    def low(z):
        m = M.EblAbsorptionModel(z)
        x = np.concatenate([E, [1e-6, 1e3, 1e6, 100.0001]])
        g = trans(m, x * u.TeV)
        ck.step()
        ck.state(("low", float(z)))
        if not np.all(np.abs(g - 1) < 1e-12):
            raise Violation("z=%s: transmission %s" % (z, g[np.abs(g - 1) >= 1e-12]))

    for z in (0, 0.0, 1e-9, 0.004, 0.00999, 0.0 * u.dimensionless_unscaled):
        ck.case("low:%s" % z, low, z)

    def order():
        x = np.concatenate([E[::3], mid_all()])
        prev = np.ones(len(x))
        for z in [0, 0.005] + list(zs) + [3.995, 4.0, 5.5, 10.0]:
            g = trans(M.EblAbsorptionModel(z), x * u.TeV)
            ck.step()
            ck.state(("order", float(z)))
            if np.any(g > prev + 2e-3):
                i = np.argmax(g - prev)
                raise Violation("transmission grows with redshift at z=%g, %g TeV: %g, was %g" % (z, x[i], g[i], prev[i]))
            if np.any(g < 0) or np.any(g > 1):
                raise Violation("z=%g: outside [0, 1]" % z)
            prev = np.minimum(prev, g)
            if 0.01 <= z <= 3.99:
                need_table(z, x[:len(E[::3])], g[:len(E[::3])], slice(None, None, 3))

    def mid_all():
        return np.array([0.0123, 0.0777, 0.333, 1.234, 7.7, 55.5, 150.0, 2e3])

    ck.case("order", order)

    # units, shapes, containers, neighbours
    def forms(ck, it):
        z, un = it

        def go():
            x = np.array([5e-4, 1e-3, 0.02, 0.1, 0.5, 1.0, 4.0, 20.0, 100.0, 250.0])
            m = M.EblAbsorptionModel(z)
            base = trans(M.EblAbsorptionModel(z), x * u.TeV)
            e = (x * u.TeV).to(un)
            ck.state(it)

            def chk(what, got, want):
                ck.step()
                if got.shape != want.shape or not np.allclose(got, want, rtol=1e-7, atol=1e-60):
                    raise Violation("z=%s, %s in %s: %s instead of %s" % (z, what, un, got, want))

            # the edges of the table may round to either side in other units: they agree there
            chk("array", trans(m, e), base)
            chk("reversed", trans(m, e[::-1]), base[::-1])
            for i in range(len(x)):
                chk("alone", trans(m, e[i]), base[i])
                chk("length 1", trans(m, e[i:i + 1]), base[i:i + 1])
            chk("table", trans(m, Table({"energy": e})), base)
            chk("dict", trans(m, {"energy": e}), base)
            chk("2-d", trans(m, e.reshape(2, 5)), base.reshape(2, 5))
            for p in itertools.permutations([1, 5, 9]):
                chk("subset", trans(m, e[list(p)]), base[list(p)])

        ck.case("forms:%s:%s" % it, go)

    ck.parallel(forms, [(z, un) for z in (0, 0.01, 0.116, 0.5, 1.33, 3.0, 3.99) for un in ("TeV", "GeV", "eV", "erg", "J", "keV")])

    def rest():
        a = trans(M.EblAbsorptionModel(0.5), E * u.TeV)
        for m in (M.EblAbsorptionModel(0.5 * u.dimensionless_unscaled), M.EblAbsorptionModel(0.5, "Dominguez"),
                  M.EblAbsorptionModel(redshift=0.5, ebl_absorption_model="Dominguez")):
            ck.step()
            if not np.array_equal(trans(m, E * u.TeV), a):
                raise Violation("forms of the arguments differ")
        for bad in ((-0.1,), (0.5, "Franceschini"), (0.5 * u.TeV,)):
            r = observe(M.EblAbsorptionModel, *bad)
            ck.step()
            if not isinstance(r, Raised) or r.kind not in ("ValueError", "TypeError", "UnitsError", "UnitConversionError"):
                raise Violation("arguments %s accepted: %r" % (bad, r))
        # one model does not change another (the table is shared)
        m1 = M.EblAbsorptionModel(1.0)
        b1 = trans(m1, E * u.TeV)
        M.EblAbsorptionModel(2.0)
        M.EblAbsorptionModel(0.5)
        if not np.array_equal(trans(m1, E * u.TeV), b1) or not np.array_equal(trans(M.EblAbsorptionModel(1.0), E * u.TeV), b1):
            raise Violation("building other models changed the transmission")

    ck.case("rest", rest)
