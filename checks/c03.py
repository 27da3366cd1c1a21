"""C03: Inverse Compton emission decomposes into its seed photon fields, at any time."""
TECHNIQUE = ("bounded exhaustive exploration of call/change histories on real objects; oracle = "
             "single-field models and their sum")
NOTE = ("All words up to depth 2-3 (thorough 3-4) of total and per-field requests and setting changes "
        "for every subset (size <= 3) of five field kinds; per-field reference values come from "
        "single-field models evaluated without caching. The physics of one field is C08's business.")

import itertools

import numpy as np
from astropy import units as u

from mc import env  # noqa
from mc.common import Raised, freeze, observe, need, same
from mc.harness import Violation
from naima import models as M
from naima import radiative as R

KW = dict(nEed=10, Eemin=10 * u.GeV, Eemax=100 * u.TeV)
FIELDS = {
    "CMB": lambda s: "CMB",
    "FIR": lambda s: "FIR",
    "star": lambda s: ["star", s["T"] * u.K, s["u"] * u.erg / u.cm**3, s["theta"] * u.deg],
    "mono": lambda s: ["mono", 2.0 * u.eV, s["u"] * u.eV / u.cm**3],
    "arr": lambda s: ["arr", [0.1, 0.5, 2.0] * u.eV, np.array([30.0, 20.0, 1.0]) * s["u"] / (u.eV * u.cm**3)],
}
GRID = {"g1": [1.0, 3.0, 20.0] * u.TeV, "g2": [2.0, 5.0, 30.0] * u.TeV, "g3": [100.0] * u.GeV}
DIST = {"d0": 0, "d1": 1 * u.kpc, "d3": 3 * u.pc}
NPI = "numpy"  # selected by position, given as a numpy integer
S0 = dict(T=25e3, u=3.0, theta=120.0, amp=1e36, alpha=2.3)


def pd(s):
    return M.PowerLaw(s["amp"] / u.eV, 1 * u.TeV, s["alpha"])


def build(names, s):
    return R.InverseCompton(pd(s), seed_photon_fields=[FIELDS[n](s) for n in names], **KW)


class Ref:
    def __init__(self):
        self.memo = {}

    def single(self, n, s, g):
        k = (n, repr(sorted(s.items())), g)
        if k not in self.memo:
            m = build([n], s)
            m._memoize = False
            self.memo[k] = m.flux(GRID[g], distance=0)
        return self.memo[k]

    def value(self, names, s, kind, g, d, sel):
        sel = names if sel is None else [sel]
        tot = sum((self.single(n, s, g) for n in sel), 0 / (u.s * u.eV))
        dd = DIST[d]
        if d != "d0":
            tot = tot / (4 * np.pi * dd.to("cm") ** 2)
            return (tot * GRID[g] ** 2).to("erg/(cm2 s)") if kind == "sed" else tot.to("1/(s cm2 eV)")
        return (tot * GRID[g] ** 2).to("erg/s") if kind == "sed" else tot.to("1/(s eV)")


def ops_for(names, rich):
    ev = []
    for kind, g, d in [("flux", "g1", "d1"), ("flux", "g2", "d1"), ("sed", "g1", "d0")]:
        ev.append(("ev", kind, g, d, None, None))
    for j, n in enumerate(names):
        ev.append(("ev", "flux", "g1", "d1", n, j))
        ev.append(("ev", "flux", "g2", "d0", n, n))
        if rich:
            ev.append(("ev", "sed", "g1", "d3", n, j))
            ev.append(("ev", "sed", "g3", "d1", n, n))
            ev.append(("ev", "flux", "g1", "d1", n, j - len(names)))
            ev.append(("ev", "flux", "g2", "d1", n, NPI))
    bad = [("bad", len(names)), ("bad", "nope")]
    if rich:
        bad += [("bad", np.int64(len(names))), ("bad", -len(names) - 1), ("bad", len(names) + 3), ("bad", "")]
    st = [("set", "amp", 2e36), ("set", "u", 5.0)]
    if "star" in names:
        st += [("set", "T", 2e4), ("set", "theta", 60.0), ("in", "theta", 150.0)]
        if rich:
            st += [("in", "T", 2e4), ("in", "u", 5.0)]
    if len(names) > 1:
        st += [("drop",), ("rev",)]
    return ev, bad, st


def oname(o):
    return "_".join(repr(x) if isinstance(x, np.integer) else str(x) for x in o if x is not None)


def run(ck):
    subsets = [c for k in (1, 2, 3) for c in itertools.combinations(FIELDS, k)]
    rich = {("CMB", "star"), ("mono", "arr")}
    if not ck.quick:
        rich.add(("CMB", "FIR", "star"))
    todo = []
    for c in subsets:
        depth = 3 if c in rich else 2
        if not ck.quick:
            depth = 4 if c in rich else 3
        ev, bad, st = ops_for(c, c in rich and depth <= 3)
        for d in range(1, depth + 1):
            for pre in itertools.product(ev + st, repeat=d - 1):
                for last in ev + (bad if d <= 2 else []):
                    todo.append((c, pre + (last,)))
    ck.bounds = dict(field_subsets=len(subsets), depth="2; 3 for %s" % sorted(rich) if ck.quick else "3; 4")
    ref = Ref()

    def one(ck, item):
        c, w = item

        def go():
            names, s = list(c), dict(S0)
            m = build(names, s)
            for o in w:
                ck.step()
                if o[0] == "set":
                    s[o[1]] = o[2]
                    if o[1] == "amp":
                        m.particle_distribution.amplitude = o[2] / u.eV
                    else:
                        m.seed_photon_fields = build(names, s).seed_photon_fields
                elif o[0] == "in":
                    # one entry of the field definitions changed in place
                    s[o[1]] = o[2]
                    new = build(names, s).seed_photon_fields
                    for n in names:
                        for key, val in new[n].items():
                            m.seed_photon_fields[n][key] = val
                elif o[0] == "drop":
                    if len(names) > 1:
                        names = names[1:]
                        m.seed_photon_fields = build(names, s).seed_photon_fields
                elif o[0] == "rev":
                    names = names[::-1]
                    m.seed_photon_fields = build(names, s).seed_photon_fields
                elif o[0] == "bad":
                    for f in (m.flux, m.sed):
                        r = observe(f, GRID["g1"], seed=o[1])
                        if not (isinstance(r, Raised) and r.kind == "ValueError"):
                            raise Violation("undefined field %r gives %r instead of ValueError" % (o[1], r))
                else:
                    _, kind, g, d, n, sel = o
                    if n is not None and n not in names:
                        continue
                    if sel == NPI:
                        sel = np.int64(names.index(n))
                    elif isinstance(sel, int):
                        sel = names.index(n) - (len(names) if sel < 0 else 0)
                    f = m.flux if kind == "flux" else m.sed
                    if n is None:
                        got = observe(f, GRID[g], distance=DIST[d])
                    elif kind == "sed":
                        got = observe(f, {"energy": GRID[g]}, DIST[d], sel)
                    else:
                        got = observe(f, GRID[g], DIST[d], seed=sel)
                    want = ref.value(names, s, kind, g, d, n)
                    ck.outcome(freeze(got))
                    need("%s of %s" % (oname(o), names), got, want, 1e-9)
                    if got.unit != want.unit:
                        raise Violation("unit %s instead of %s" % (got.unit, want.unit))
                ck.state((tuple(names), sorted(s.items()), oname(o)))

        ck.case("%s:%s" % ("+".join(c), ">".join(oname(o) for o in w)), go)

    # canonical order: group by subset for the reference memo
    ck.sample(["+".join(todo[-1][0]), [oname(o) for o in todo[-1][1]]])
    ck.parallel(one, todo)
