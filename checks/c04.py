"""C04: flux, SED, distance, units and array shape describe one spectrum."""
TECHNIQUE = ("exhaustive enumeration of request shapes (ordered sub-grids x containers x units x "
             "distances x call styles) on the real models; oracle = pointwise intrinsic spectrum")
NOTE = ("Complete within the stated alphabets: all ordered sub-grids (with a repeated element) of a "
        "4-point grid (pairs and triples also with an energy beyond the emission and one far below), requests of up to 2049 (thorough 5001) energies in three orders, 6 energy units, 5 containers, 9 distances, flux and SED, 9 model "
        "configurations; the reference is the same model asked for one energy at a time at distance 0.")

import itertools

import numpy as np
from astropy import units as u
from astropy.table import QTable, Table

from mc import env  # noqa
from mc.common import freeze, observe, same, Raised
from mc.harness import Violation
from naima import models as M
from naima import radiative as R


def pd():
    return M.ExponentialCutoffPowerLaw(1e36 / u.eV, 1 * u.TeV, 2.1, 13 * u.TeV)


IK = dict(nEed=10, Eemin=10 * u.GeV, Eemax=100 * u.TeV)
MODELS = {
    "sy": (lambda: R.Synchrotron(pd(), B=30 * u.uG, nEed=20), [1e-3, 0.2, 5.0, 80.0], "keV"),
    "ic-th": (lambda: R.InverseCompton(pd(), ["CMB", "FIR"], **IK), [1e-3, 0.3, 4.0, 60.0], "TeV"),
    "ic-ani": (lambda: R.InverseCompton(pd(), [["s", 2e4 * u.K, 1 * u.erg / u.cm**3, 60 * u.deg]], **IK),
               [1e-3, 0.3, 4.0, 60.0], "TeV"),
    "ic-mono": (lambda: R.InverseCompton(pd(), [["m", 1 * u.eV, 1 * u.eV / u.cm**3]], **IK),
                [1e-3, 0.3, 4.0, 60.0], "TeV"),
    "ic-arr": (lambda: R.InverseCompton(pd(), [["a", [0.1, 1, 5] * u.eV, [9, 3, 1] * u.Unit("1/(eV cm3)")]], **IK),
               [1e-3, 0.3, 4.0, 60.0], "TeV"),
    "br": (lambda: R.Bremsstrahlung(pd(), nEed=10, Eemax=10 * u.TeV), [3e-3, 0.4, 20.0, 900.0], "GeV"),
    "pp": (lambda: R.PionDecay(pd(), nEpd=10), [1e-4, 0.05, 2.0, 60.0], "TeV"),
    "pp-dir": (lambda: R.PionDecay(pd(), nEpd=10, useLUT=False, nuclear_enhancement=False),
               [1e-4, 0.05, 2.0, 60.0], "TeV"),
    "k06": (lambda: R.PionDecayKelner06(pd()), [1e-3, 0.02, 0.3, 20.0], "TeV"),
}
UNITS = ["eV", "keV", "GeV", "TeV", "erg", "J"]
CONT = {
    "q": lambda e: e,
    "dict": lambda e: {"energy": e, "flux": 3},
    "table": lambda e: Table({"energy": e, "z": np.arange(len(e))}),
    "qtable": lambda e: QTable({"energy": e, "z": np.arange(len(e))}),
}
DISTS = {
    "dflt": None, "1kpc": 1 * u.kpc, "1000pc": 1000 * u.pc, "2kpc": 2 * u.kpc, "5Mpc": 5 * u.Mpc,
    "cm": 3.0e20 * u.cm, "0": 0, "0.0": 0.0, "0kpc": 0 * u.kpc,
}


# further energies: one beyond the most energetic particle (no emission) and one far below all others
EXTRA = {"sy": [1e9, 1e-12], "br": [3e4, 1e-8], "pp": [2e5, 3e-6], "pp-dir": [2e5, 3e-6], "k06": [3e5, 1e-4]}


def seqs():
    out = []
    # with the fifth and sixth energy
    for k in (2, 3):
        out += [w for w in itertools.permutations(range(6), k) if 4 in w or 5 in w]
    out += [(4,), (5,), (4, 0, 1, 2, 3), (3, 2, 4, 1, 0, 5), (4, 4, 2)]
    for k in (1, 2, 3, 4):
        out += list(itertools.permutations(range(4), k))
    out += [(0, 0), (1, 1), (2, 1, 2), (3, 3, 0)]
    return out


def run(ck):
    names = list(MODELS)
    for n in names:
        mkm, ee, eu = MODELS[n]
        MODELS[n] = (mkm, ee[:4] + EXTRA.get(n, [300.0, 1e-13]), eu)
    base = {}
    for n in names:
        mkm, ee, eu = MODELS[n]
        vals = []
        for e in ee:
            m = mkm()
            m._memoize = False
            vals.append(m.flux([e] * u.Unit(eu), distance=0).to("1/(s eV)").value[0])
        base[n] = np.array(vals)
        if not np.all(np.isfinite(base[n])) or not np.all(base[n][:4] > 0) or not base[n][4] == 0:
            ck.case("base:" + n, lambda: (_ for _ in ()).throw(Violation("reference spectrum %s" % base[n])))

    def expect(n, seq, kind, d):
        mkm, ee, eu = MODELS[n]
        e = np.array([ee[i] for i in seq]) * u.Unit(eu)
        f = base[n][list(seq)] * u.Unit("1/(s eV)")
        dist = 1 * u.kpc if DISTS[d] is None else DISTS[d]
        if dist != 0:
            f = f / (4 * np.pi * dist ** 2)
            return (f * e ** 2).to("erg/(cm2 s)") if kind == "sed" else f.to("1/(s cm2 eV)")
        return (f * e ** 2).to("erg/s") if kind == "sed" else f

    def call(m, kind, arg, d, style):
        f = m.flux if kind == "flux" else m.sed
        if DISTS[d] is None:
            return observe(f, arg) if style != "allkw" else observe(f, photon_energy=arg)
        if style == "pos":
            return observe(f, arg, DISTS[d])
        if style == "allkw":
            return observe(f, photon_energy=arg, distance=DISTS[d])
        return observe(f, arg, distance=DISTS[d])

    # slow models get the plain alphabet, fast ones everything
    def cases(n):
        slow = n in ("k06", "br") and ck.quick
        S = seqs()
        if slow:
            S = [s for s in S if max(s) < 4 or len(s) != 3 or (s[1] == 4 and s[0] == 2)]
        for s in S:
            for un in (UNITS if not slow and max(s) < 4 else UNITS[2:4]):
                yield (n, s, un, "q", "flux", "dflt", "kw")
        some = [(0, 1, 2, 3), (3, 1, 0, 2), (2,), (0, 3), (4, 0), (5, 4, 1)]
        for s in some:
            for c in CONT:
                for un in (UNITS if not slow else UNITS[3:]):
                    for kind in ("flux", "sed"):
                        for d in (DISTS if s == some[1] and un in ("GeV", "TeV") else ("2kpc", "0")):
                            for style in (("kw", "pos", "allkw") if c == "q" and un == "TeV" else ("kw",)):
                                yield (n, s, un, c, kind, d, style)
        for i in range(6):
            for un in UNITS[:4]:
                for kind in ("flux", "sed"):
                    for d in ("dflt", "0"):
                        yield (n, (i,), un, "scalar", kind, d, "kw")

    todo = []
    for n in names:
        todo += list(dict.fromkeys(cases(n)))
    ck.bounds = dict(models=names, subgrids=len(seqs()), units=UNITS, containers=list(CONT) + ["scalar"],
                     distances=list(DISTS))

    def one(ck, it):
        n, s, un, c, kind, d, style = it

        def go():
            mkm, ee, eu = MODELS[n]
            e = (np.array([ee[i] for i in s]) * u.Unit(eu)).to(un)
            arg = e[0] if c == "scalar" else CONT[c](e)
            m = mkm()
            got = call(m, kind, arg, d, style)
            ck.step()
            want = expect(n, s, kind, d)
            if c == "scalar" and not isinstance(got, Raised):
                if np.size(got) != 1:
                    raise Violation("scalar energy gives shape %s" % (np.shape(got),))
                got = got.reshape(1)
            # one more request on the now warm object: twice the same answer
            again = call(m, kind, arg, d, style)
            ck.step()
            ck.outcome(freeze(got))
            # the adaptive quadrature of the oldest model is itself only good to 1e-3
            dd = same(got, want, 1e-8 if n != "k06" else 1e-6)
            if dd:
                raise Violation("%s(%s [%s] as %s, distance %s): %s" % (kind, [ee[i] for i in s], un, c, d, dd))
            if c == "scalar":
                again = again.reshape(1)
            dd = same(again, want, 1e-8 if n != "k06" else 1e-6)
            if dd:
                raise Violation("second request: %s" % dd)
            ck.state((n, s, un, c, kind, d, style))

        ck.case("%s:%s:%s:%s:%s:%s:%s" % (n, "".join(map(str, s)), un, c, kind, d, style), go)

    ck.sample(todo[0])
    ck.sample(todo[-1])
    ck.parallel(one, todo)

    # long requests: the number of energies in one request does not matter
    sizes = [7, 33, 64, 65, 100, 101, 129, 257, 501, 513, 1001, 1025] + ([2049, 4097, 5001] if not ck.quick else [2049])
    slow_sizes = [33, 101, 257, 1025] if not ck.quick else [33, 129]
    longs = [(n, k, order) for n in names for k in (slow_sizes if n == "k06" else sizes)
             for order in ("up", "down", "mix")]
    ck.bounds["long_requests"] = sizes

    def long(ck, it):
        n, k, order = it

        def go():
            mkm, ee, eu = MODELS[n]
            # distinct energies from below the lowest to the highest of the grid
            e = np.geomspace(ee[0] / 2, ee[3], k)
            if order == "down":
                e = e[::-1]
            elif order == "mix":
                e = e[(np.arange(k) * 5) % k] if k % 5 else e[(np.arange(k) * 3) % k] if k % 3 else e[::-1]
            got = observe(mkm().flux, e * u.Unit(eu), distance=0)
            ck.step()
            # the same energies a few at a time: the first, the last, and a spread of the others
            pos = sorted(set([0, 1, k - 2, k - 1] + list(range(0, k, max(1, k // 37)))
                             + [j for j in (31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 499, 500, 511, 512,
                                            999, 1000, 1023, 1024, 2047, 2048, 4095, 4096) if j < k]))
            if isinstance(got, Raised) or np.shape(got) != (k,):
                raise Violation("request of %d energies: %s" % (k, got if isinstance(got, Raised) else np.shape(got)))
            m = mkm()
            m._memoize = False
            for i in range(0, len(pos), 5):
                j = pos[i:i + 5]
                want = m.flux(e[j] * u.Unit(eu), distance=0)
                ck.step()
                dd = same(got[j], want, 1e-8 if n != "k06" else 1e-6)
                if dd:
                    raise Violation("%d energies in one request, those at positions %s: %s" % (k, j, dd))
            sed = observe(mkm().sed, e * u.Unit(eu), distance=2 * u.kpc)
            ck.step()
            ce = e * u.Unit(eu)
            dd = same(sed, (got * ce ** 2 / (4 * np.pi * (2 * u.kpc) ** 2)).to("erg/(cm2 s)"), 1e-8 if n != "k06" else 1e-6)
            if dd:
                raise Violation("SED of %d energies: %s" % (k, dd))
            ck.state(it)

        ck.case("long:%s:%d:%s" % it, go)

    ck.parallel(long, longs)
    ck.assumptions = ["4-point photon grids; coarse particle grids (10-20 points per decade)."]
