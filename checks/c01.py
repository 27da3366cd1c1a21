"""C01: result caching is invisible over every history of calls and changes.

Explored: every word over {setting changes, evaluations} up to a depth, on the real objects;
oracle: the same evaluation on a newly built object with the same current settings in a
process where nothing was evaluated before.
"""
TECHNIQUE = ("bounded exhaustive exploration of call/change histories on the real objects "
             "(all words up to a depth), differential oracle = fresh object in a fresh process")
NOTE = ("Every word of setting changes and evaluations up to depth 3-4 (thorough 4-5) over sharp "
        "alphabets chosen to collide in the cache, for every model class, plus cache-capacity and "
        "two-object schedules; nothing is claimed beyond these alphabets and depths.")

import itertools

import numpy as np
from astropy import units as u

from mc import env  # noqa
from mc.common import Raised, freeze, fresh_process_map, observe, same
from mc.harness import Violation

from naima import models as M
from naima import radiative as R

G1 = [1.0, 3.0, 20.0]
G2 = [2.0, 5.0, 30.0]


def ecpl(s):
    return M.ExponentialCutoffPowerLaw(
        s["amp"] / u.eV, 1 * u.TeV, s["alpha"], s["ecut"] * u.TeV, s["beta"])


def table_pd(s):
    e = np.logspace(-3, 2.7, 40) * u.TeV
    return M.TableModel(e, (e.value ** -s.get("talpha", 2.0)) * 1e36 / u.eV, amplitude=s["tamp"])


def pd_of(s):
    k = s["pd"]
    if k == "ecpl":
        return ecpl(s)
    if k == "bpl":
        return M.BrokenPowerLaw(s["amp"] / u.eV, 1 * u.TeV, 3 * u.TeV, s["a1"], s["a2"])
    if k == "pl":  # same number of parameters and values as "lp" has, plus different class
        return M.PowerLaw(s["amp"] / u.eV, 1 * u.TeV, s["alpha"])
    if k == "table":
        return table_pd(s)
    if k == "f1":
        return func1
    if k == "f2":
        return func2
    if k == "call":
        return UserDist(s["slope"])
    if k == "lp":
        return M.LogParabola(s["amp"] / u.eV, 1 * u.TeV, s["alpha"], s["beta"])
    if k == "likelp":
        return LikeLP(s["amp"] / u.eV, 1 * u.TeV, s["alpha"], s["beta"])
    raise KeyError(k)


def func1(e):
    return 1e36 * (e.to("TeV").value) ** -2.0 / u.eV


def func2(e):
    return 3e36 * (e.to("TeV").value) ** -2.5 / u.eV


class UserDist:
    """A user defined distribution object with state naima knows nothing about."""

    def __init__(self, slope):
        self.slope = slope

    def __call__(self, e):
        return 1e36 * (e.to("TeV").value) ** -self.slope / u.eV


class LikeLP(M.LogParabola):
    """Same parameters as LogParabola, other shape."""

    @staticmethod
    def eval(e, amplitude, e_0, alpha, beta):
        return amplitude * (e / e_0) ** (-alpha + 0.3 * beta)


S0 = dict(amp=1e36, alpha=2.1, ecut=13.0, beta=1.0, tamp=1.0, a1=1, a2=12.5, slope=2.0, pd="ecpl")


# ---- operations -----------------------------------------------------------------
class Setter:
    def __init__(self, name, key, value, apply):
        self.name, self.key, self.value, self._apply = name, key, value, apply

    def upd(self, s):
        v = self.value(s) if callable(self.value) else self.value
        if isinstance(self.key, tuple):
            return dict(s, **dict(zip(self.key, v)))
        return dict(s, **{self.key: v})

    def act(self, objs, s):
        self._apply(objs, s)


def set_attr(attr, conv):
    def f(o, s):
        setattr(o["m"], attr, conv(s))
    return f


def set_pd(attr, conv):
    def f(o, s):
        setattr(o["m"].particle_distribution, attr, conv(s))
    return f


def swap_pd(o, s):
    o["m"].particle_distribution = pd_of(s)


class Ev:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, o):
        return self.fn(o)


def radiative_evals(eu, extra=()):
    """Evaluations over grids that are forced to look alike: same numbers in other units,
    same bytes with other shape, other numbers."""
    g1, g2 = G1 * u.Unit(eu), G2 * u.Unit(eu)
    other = {"keV": "eV", "eV": "keV", "TeV": "GeV", "GeV": "TeV", "MeV": "GeV"}[eu]
    evs = [
        Ev("flux", lambda o: o["m"].flux(g1)),
        Ev("flux_g2", lambda o: o["m"].flux(g2)),
        Ev("flux_unit", lambda o: o["m"].flux(G1 * u.Unit(other))),
        Ev("flux_d0", lambda o: o["m"].flux(g1, distance=0)),
        Ev("flux_d2", lambda o: o["m"].flux(g1, distance=2 * u.kpc)),
        Ev("flux_d2p", lambda o: o["m"].flux(g1, 2 * u.pc)),
        Ev("sed", lambda o: o["m"].sed(g1)),
        Ev("sed_d0", lambda o: o["m"].sed(g1, distance=0)),
        Ev("dict", lambda o: o["m"].flux({"energy": g2, "x": 1})),
    ]
    return evs + list(extra)


def common_setters(which):
    q = {
        "amp2": Setter("amp2", "amp", 2e36, set_pd("amplitude", lambda s: s["amp"] / u.eV)),
        "amp_tiny": Setter("amp_tiny", "amp", 1e36 * (1 + 1e-6), set_pd("amplitude", lambda s: s["amp"] / u.eV)),
        "amp0": Setter("amp0", "amp", 1e36, set_pd("amplitude", lambda s: s["amp"] / u.eV)),
        "alpha": Setter("alpha", "alpha", 2.5, set_pd("alpha", lambda s: s["alpha"])),
        "alpha0": Setter("alpha0", "alpha", 2.1, set_pd("alpha", lambda s: s["alpha"])),
        "ecut": Setter("ecut", "ecut", 40.0, set_pd("e_cutoff", lambda s: s["ecut"] * u.TeV)),
        # 13 PeV has the same numeric value as 13 TeV
        "ecut_unit": Setter("ecut_unit", "ecut", 13000.0, set_pd("e_cutoff", lambda s: (s["ecut"] / 1000) * u.PeV)),
        "beta": Setter("beta", "beta", 0.5, set_pd("beta", lambda s: s["beta"])),
    }
    return [q[w] for w in which]


def mk(cls, **kw):
    def build(s):
        args = {k: (v(s) if callable(v) else v) for k, v in kw.items()}
        return dict(m=cls(pd_of(s), **args))
    return build


SC = {}


def scenario(name, s0, build, setters, evals, depth=3, tdepth=4):
    SC[name] = dict(name=name, s0=dict(S0, **s0), build=build, setters=setters, evals=evals,
                    depth=depth, tdepth=tdepth)


def pick(evs, *names):
    d = {e.name: e for e in evs}
    return [d[n] for n in names]


KEV = radiative_evals("keV")
TEV = radiative_evals("TeV")

# Synchrotron
scenario("sy-par", dict(B=10.0, emin=1.0, emax=100.0, n=10),
         mk(R.Synchrotron, B=lambda s: s["B"] * u.uG, Eemin=lambda s: s["emin"] * u.GeV,
            Eemax=lambda s: s["emax"] * u.TeV, nEed=lambda s: s["n"]),
         common_setters(["amp2", "alpha", "ecut_unit"]) + [
             Setter("B", "B", 20.0, set_attr("B", lambda s: s["B"] * u.uG)),
             Setter("B_unit", "B", 10.0e3, set_attr("B", lambda s: s["B"] / 1e3 * u.mG)),
             Setter("Eemin", "emin", 100.0, set_attr("Eemin", lambda s: s["emin"] * u.GeV)),
             Setter("Eemax", "emax", 50.0, set_attr("Eemax", lambda s: s["emax"] * u.TeV)),
             Setter("nEed", "n", 20, set_attr("nEed", lambda s: s["n"]))],
         pick(KEV, "flux", "flux_unit", "flux_d0", "flux_d2", "sed", "sed_d0"))
scenario("sy-call", dict(), mk(R.Synchrotron, B=10 * u.uG, nEed=10, Eemax=100 * u.TeV),
         common_setters(["amp2", "amp_tiny", "amp0"]), KEV, depth=3)
scenario("sy-dist", dict(pd="bpl"), mk(R.Synchrotron, B=10 * u.uG, nEed=10, Eemax=100 * u.TeV),
         [Setter("a11_2.5", ("pd", "a1", "a2"), ("bpl", 11, 2.5), swap_pd),
          Setter("a1_12.5", ("pd", "a1", "a2"), ("bpl", 1, 12.5), swap_pd),
          Setter("to_ecpl", "pd", "ecpl", swap_pd),
          Setter("to_lp", "pd", "lp", swap_pd),
          Setter("to_likelp", "pd", "likelp", swap_pd),
          Setter("to_table", ("pd", "tamp"), ("table", 1.0), swap_pd),
          Setter("to_table2", ("pd", "tamp"), ("table", 2.0), swap_pd),
          Setter("to_table3", ("pd", "talpha", "tamp"), ("table", 2.5, 1.0), swap_pd),
          Setter("to_f1", "pd", "f1", swap_pd),
          Setter("to_f2", "pd", "f2", swap_pd)],
         pick(KEV, "flux", "sed"))
scenario("sy-user", dict(pd="call"), mk(R.Synchrotron, B=10 * u.uG, nEed=10, Eemax=100 * u.TeV),
         [Setter("slope", "slope", 2.5, set_pd("slope", lambda s: s["slope"])),
          Setter("slope0", "slope", 2.0, set_pd("slope", lambda s: s["slope"])),
          Setter("B", "B", 20.0, set_attr("B", lambda s: 20 * u.uG))],
         pick(KEV, "flux", "flux_d0", "sed"))
SC["sy-user"]["build"] = lambda s: dict(m=R.Synchrotron(pd_of(s), B=s.get("B", 10.0) * u.uG, nEed=10, Eemax=100 * u.TeV))
scenario("sy-table", dict(pd="table"), mk(R.Synchrotron, B=10 * u.uG, nEed=10, Eemax=100 * u.TeV),
         [Setter("tamp2", "tamp", 2.0, set_pd("amplitude", lambda s: s["tamp"])),
          Setter("tamp_tiny", "tamp", 1.000001, set_pd("amplitude", lambda s: s["tamp"])),
          Setter("tamp1", "tamp", 1.0, set_pd("amplitude", lambda s: s["tamp"]))],
         pick(KEV, "flux", "flux_g2", "flux_d0", "sed"), depth=4, tdepth=5)

# set_We as an operation: the resulting amplitude is observed, not predicted
def _set_we(val):
    def f(o, s):
        o["m"].set_We(val * u.erg)
    return f


def we_build(s):
    m = R.Synchrotron(pd_of(s), B=10 * u.uG, nEed=10, Eemax=100 * u.TeV)
    if s.get("We"):
        m.set_We(s["We"] * u.erg)
    return dict(m=m)


for _pd in ("ecpl", "table"):
    scenario("sy-We-" + _pd, dict(pd=_pd, We=0), we_build,
             [Setter("We1", "We", 1e47, _set_we(1e47)), Setter("We2", "We", 2e47, _set_we(2e47))],
             pick(KEV, "flux", "flux_d0", "sed"), depth=4, tdepth=5)


# Inverse Compton
def seeds(s):
    out = []
    for n in s["seeds"]:
        if n in ("CMB", "FIR", "NIR"):
            out.append(n)
        elif n == "star":
            out.append(["star", s["T"] * u.K, s["u"] * u.erg / u.cm ** 3, s["theta"] * u.deg])
        elif n == "mono":
            out.append(["mono", s["E"] * u.eV, s["ud"] * u.eV / u.cm ** 3])
        elif n == "arr":
            ee = np.logspace(-1, 1, s["na"]) * u.eV
            ph = 1e2 * ee.value ** -2.0
            ph[s["na"] // 2] *= s["bump"]
            out.append(["arr", ee, ph / (u.eV * u.cm ** 3)])
    return out


IC0 = dict(T=25e3, u=3.0, theta=120.0, E=1.0, ud=1.0, bump=1.0, na=5, seeds=("CMB", "star"))
ICK = dict(nEed=10, Eemin=10 * u.GeV, Eemax=100 * u.TeV)


def ic_build(s):
    return dict(m=R.InverseCompton(pd_of(s), seed_photon_fields=seeds(s), **ICK))


def re_seed(o, s):
    new = R.InverseCompton(pd_of(s), seed_photon_fields=seeds(s))
    o["m"].seed_photon_fields = new.seed_photon_fields


def seed_item(name, key, conv):
    def f(o, s):
        o["m"].seed_photon_fields[name][key] = conv(s)
    return f


ICX = [Ev("seed0", lambda o: o["m"].flux(G1 * u.TeV, seed=0)),
       Ev("seed1_g2", lambda o: o["m"].flux(G2 * u.TeV, seed=1)),
       Ev("seed1_d0", lambda o: o["m"].flux(G1 * u.TeV, distance=0, seed=1)),
       Ev("seedname", lambda o: o["m"].sed(G1 * u.TeV, seed="CMB"))]
scenario("ic-seed", dict(IC0), ic_build,
         [Setter("T", "T", 20e3, seed_item("star", "T", lambda s: s["T"] * u.K)),
          Setter("u_tiny", "u", 3.0 * (1 + 1e-7), seed_item("star", "u", lambda s: s["u"] * u.erg / u.cm ** 3)),
          Setter("theta", "theta", 60.0, seed_item("star", "theta", lambda s: s["theta"] * u.deg)),
          Setter("drop", "seeds", ("CMB",), re_seed),
          Setter("swap", "seeds", ("star", "CMB"), re_seed),
          Setter("both", "seeds", ("CMB", "star"), re_seed)]
         + common_setters(["amp2"]),
         pick(TEV, "flux", "flux_d0", "sed") + ICX[:3])
scenario("ic-call", dict(IC0), ic_build, common_setters(["amp2", "alpha"]),
         pick(TEV, "flux", "flux_g2", "flux_unit", "flux_d0", "sed") + ICX, depth=3)
for _na in (5, 1201):
    scenario("ic-array%d" % _na, dict(IC0, seeds=("arr", "CMB"), na=_na), ic_build,
             [Setter("bump1", "bump", 1.0, re_seed), Setter("bump5", "bump", 5.0, re_seed),
              Setter("bump_tiny", "bump", 1.0 + 1e-7, re_seed)],
             [Ev("flux", lambda o: o["m"].flux([3.0] * u.TeV)), Ev("sed", lambda o: o["m"].sed([3.0] * u.TeV)),
              Ev("s0", lambda o: o["m"].flux([3.0] * u.TeV, seed="arr"))],
             depth=3 if _na < 100 else 2, tdepth=4 if _na < 100 else 3)
    if _na > 100:
        SC["ic-array%d" % _na]["pattern"] = "ese"
scenario("ic-mono", dict(IC0, seeds=("mono",)), ic_build,
         [Setter("E", "E", 2.0, re_seed), Setter("ud", "ud", 2.0, re_seed)],
         pick(TEV, "flux", "flux_g2", "flux_unit", "flux_d2p", "dict"), depth=3)

# Bremsstrahlung
scenario("br", dict(n0=1.0, wee=1.2, wep=1.3),
         lambda s: dict(m=R.Bremsstrahlung(pd_of(s), n0=s["n0"] / u.cm ** 3, weight_ee=s["wee"],
                                           weight_ep=s["wep"], nEed=8, Eemin=100 * u.MeV, Eemax=1 * u.TeV)),
         [Setter("n0", "n0", 2.0, set_attr("n0", lambda s: s["n0"] / u.cm ** 3)),
          Setter("wswap", ("wee", "wep"), (1.3, 1.2),
                 lambda o, s: (setattr(o["m"], "weight_ee", 1.3), setattr(o["m"], "weight_ep", 1.2))),
          Setter("wee", "wee", 0.5, set_attr("weight_ee", lambda s: s["wee"]))]
         + common_setters(["amp2"]),
         pick(radiative_evals("GeV"), "flux", "flux_d0", "sed", "flux_unit"), depth=3)

# Pion decay
PP0 = dict(nh=1.0, lut=True, hi="Pythia8", nuc=True, emin=1.3, n=6)


def pp_build(s):
    return dict(m=R.PionDecay(pd_of(s), nh=s["nh"] / u.cm ** 3, nuclear_enhancement=s["nuc"],
                              useLUT=s["lut"], hiEmodel=s["hi"], nEpd=s["n"], Epmax=1 * u.PeV))


scenario("pp", dict(PP0), pp_build,
         [Setter("nh", "nh", 2.0, set_attr("nh", lambda s: s["nh"] / u.cm ** 3)),
          Setter("lut_off", "lut", False, set_attr("useLUT", lambda s: False)),
          Setter("lut_on", "lut", True, set_attr("useLUT", lambda s: True)),
          Setter("geant", "hi", "Geant4", set_attr("hiEmodel", lambda s: "Geant4")),
          Setter("pythia", "hi", "Pythia8", set_attr("hiEmodel", lambda s: "Pythia8")),
         Setter("sibyll", "hi", "SIBYLL", set_attr("hiEmodel", lambda s: "SIBYLL")),
          Setter("nuc_off", "nuc", False, set_attr("nuclear_enhancement", lambda s: False)),
          Setter("nuc_on", "nuc", True, set_attr("nuclear_enhancement", lambda s: True)),
          Setter("nEpd", "n", 12, set_attr("nEpd", lambda s: s["n"]))]
         + common_setters(["amp2", "alpha"]),
         pick(TEV, "flux", "flux_d0", "sed"), depth=3)
scenario("pp-call", dict(PP0), pp_build, common_setters(["amp2"]), TEV, depth=3)


# Kelner06: two objects (its cache must not leak between them)
def k06_build(s):
    return dict(m=R.PionDecayKelner06(pd_of(s), nh=s.get("nh", 1.0) / u.cm ** 3,
                                      Etrans=s.get("etr", 0.1) * u.TeV))


scenario("k06", dict(nh=1.0, etr=0.1), k06_build,
         [Setter("nh", "nh", 2.0, set_attr("nh", lambda s: s["nh"] / u.cm ** 3)),
          Setter("etr", "etr", 5.0, set_attr("Etrans", lambda s: s["etr"] * u.TeV)),
          Setter("amp2", "amp", 2e36, set_pd("amplitude", lambda s: s["amp"] / u.eV))],
         [Ev("flux", lambda o: o["m"].flux([1.0, 20.0] * u.TeV)),
          Ev("flux_d0", lambda o: o["m"].flux([1.0, 20.0] * u.TeV, distance=0)),
          Ev("sed", lambda o: o["m"].sed([1.0, 20.0] * u.TeV))], depth=3, tdepth=4)

# two objects used alternately, with all combinations of distributions and classes
TWO = {
    "f1": lambda: func1, "f2": lambda: func2,
    "t1": lambda: table_pd(dict(tamp=1.0)), "t2": lambda: table_pd(dict(tamp=2.0)),
    "u1": lambda: UserDist(2.0), "u2": lambda: UserDist(2.5),
    "e1": lambda: ecpl(S0), "e2": lambda: ecpl(dict(S0, alpha=2.5)),
}
RAD = {
    "sy": (lambda p: R.Synchrotron(p, nEed=10), "keV"),
    "ic": (lambda p: R.InverseCompton(p, nEed=10), "TeV"),
    "ic2": (lambda p: R.InverseCompton(p, ["FIR"], nEed=10), "TeV"),
    "br": (lambda p: R.Bremsstrahlung(p, nEed=8, Eemax=1 * u.TeV), "GeV"),
    "pp": (lambda p: R.PionDecay(p, nEpd=6), "TeV"),
    "k06": (lambda p: R.PionDecayKelner06(p), "TeV"),
}


def two_ref(arg):
    r, p, d = arg
    mkm, eu = RAD[r]
    m = mkm(TWO[p]())
    return m.flux([1.0, 20.0] * u.Unit(eu), distance=d * u.kpc)


# functional models (cache switched on as documented)
FUN = {
    "PowerLaw": (M.PowerLaw, dict(amplitude=1.0, e_0=1.0, alpha=2.0)),
    "ExponentialCutoffPowerLaw": (M.ExponentialCutoffPowerLaw, dict(amplitude=1.0, e_0=1.0, alpha=2.0, e_cutoff=10.0, beta=1.0)),
    "BrokenPowerLaw": (M.BrokenPowerLaw, dict(amplitude=1.0, e_0=1.0, e_break=3.0, alpha_1=1, alpha_2=12.5)),
    "ExponentialCutoffBrokenPowerLaw": (M.ExponentialCutoffBrokenPowerLaw, dict(amplitude=1.0, e_0=1.0, e_break=3.0, alpha_1=1, alpha_2=12.5, e_cutoff=10.0, beta=1.0)),
    "LogParabola": (M.LogParabola, dict(amplitude=1.0, e_0=1.0, alpha=2.0, beta=0.1)),
}
ENERGY = ("e_0", "e_break", "e_cutoff")


def fun_build(cls):
    def b(s):
        kw = {k: (s[k] * u.TeV if k in ENERGY else s[k]) for k in s if not k.startswith("_")}
        m = cls(**kw)
        m._memoize = s["_mem"]
        return dict(m=m)
    return b


FEV = [Ev("arr", lambda o: o["m"](G1 * u.TeV)), Ev("arr_unit", lambda o: o["m"](G1 * u.GeV)),
       Ev("scalar", lambda o: o["m"](3.0 * u.TeV)), Ev("one", lambda o: o["m"]([3.0] * u.TeV)),
       Ev("row", lambda o: o["m"](np.array([[1.0, 3.0, 20.0]]) * u.TeV)),
       Ev("dict", lambda o: o["m"](dict(energy=G2 * u.TeV)))]
for _n, (_c, _p) in FUN.items():
    st = []
    for k, v in _p.items():
        if k in ENERGY:
            st.append(Setter(k, k, v * 2, (lambda k: set_attr(k, lambda s: s[k] * u.TeV))(k)))
            st.append(Setter(k + "_GeV", k, v / 1000.0, (lambda k: set_attr(k, lambda s: s[k] * 1000 * u.GeV))(k)))
        else:
            st.append(Setter(k, k, v * 1.5, (lambda k: set_attr(k, lambda s: s[k]))(k)))
    if "alpha_1" in _p:
        st.append(Setter("a11", ("alpha_1", "alpha_2"), (11, 2.5),
                         lambda o, s: (setattr(o["m"], "alpha_1", 11), setattr(o["m"], "alpha_2", 2.5))))
    SC["fun-" + _n] = dict(name="fun-" + _n, s0=dict(_p, _mem=True), build=fun_build(_c), setters=st,
                           evals=FEV, depth=3, tdepth=3)


# changes of every size
PHOTON = ("energy", "distance")


def _rad_tiny(cls, eu, **kw):
    """One radiative model with an exactly known set of settings."""
    def build(v):
        pd = M.ExponentialCutoffPowerLaw(v["pd.amplitude"], v["pd.e_0"], v["pd.alpha"],
                                         v["pd.e_cutoff"], v["pd.beta"])
        args = {k: v[k] for k in v if isinstance(k, str) and k not in PHOTON and not k.startswith("pd.")}
        m = cls(pd, **dict(args, **fixed))
        for k in v:
            if isinstance(k, tuple):
                m.seed_photon_fields[k[0]][k[1]] = v[k]
        return m

    fixed = kw.pop("fixed", {})
    params = dict(kw, energy=1.0, distance=1.0 * u.kpc)
    params.update({"pd.amplitude": 1e36 / u.eV, "pd.e_0": 1 * u.TeV, "pd.alpha": 2.1, "pd.e_cutoff": 13 * u.TeV, "pd.beta": 1.0})
    params.update(kw.pop("seeds", {}))
    params.pop("seeds", None)
    return build, params, lambda m, v: m.flux(np.array([1.0, 3.0, 20.0]) * v["energy"] * u.Unit(eu),
                                              distance=v["distance"])


def _fun_tiny(cls, params):
    pars = {k: (v * u.TeV if k in ENERGY else float(v)) for k, v in params.items()}
    return (lambda v: cls(**{k: v[k] for k in pars}), dict(pars, energy=1.0),
            lambda m, v: m(np.array([1e-9, 1.5, 1e3]) * v["energy"] * u.TeV))


STAR = ["star", 25e3 * u.K, 3.0 * u.erg / u.cm ** 3, 120 * u.deg]
TINY = {"fun-" + _n: _fun_tiny(_c, _p) for _n, (_c, _p) in FUN.items()}
TINY["sy"] = _rad_tiny(R.Synchrotron, "keV", B=10 * u.uG, Eemin=1 * u.GeV, Eemax=100 * u.TeV, fixed=dict(nEed=10))
TINY["ic"] = _rad_tiny(R.InverseCompton, "TeV", Eemin=10 * u.GeV, Eemax=100 * u.TeV,
                       fixed=dict(nEed=10, seed_photon_fields=["CMB", STAR]),
                       seeds={("star", "T"): STAR[1], ("star", "u"): STAR[2], ("star", "theta"): STAR[3]})
TINY["br"] = _rad_tiny(R.Bremsstrahlung, "GeV", Eemin=100 * u.MeV, Eemax=1 * u.TeV, n0=1 / u.cm ** 3,
                       weight_ee=1.2, weight_ep=1.3, fixed=dict(nEed=8))
TINY["pp"] = _rad_tiny(R.PionDecay, "GeV", nh=1 / u.cm ** 3, Epmin=1.3 * u.GeV, Epmax=1 * u.PeV, fixed=dict(nEpd=6))


OTHER = {str(u.Unit(k)): u.Unit(v) for k, v in [
    (u.GeV, u.TeV), (u.TeV, u.GeV), (u.MeV, u.GeV), (u.PeV, u.TeV), (u.uG, u.mG), (1 / u.cm ** 3, 1 / u.m ** 3),
    (1 / u.eV, 1 / u.keV), (u.K, u.kK), (u.erg / u.cm ** 3, u.eV / u.cm ** 3),
    (u.deg, u.rad), (u.kpc, u.Mpc)]}


def alike_dist(kind):
    """Three classes of one name, with the same parameters, of different shapes."""
    slope = {"a": 2.0, "b": 2.5, "c": 3.0}[kind]
    if kind not in _ALIKE:
        def call(self, e):
            return self.amplitude * (e.to("TeV").value) ** -slope

        _ALIKE[kind] = type("Dist", (), dict(
            param_names=["amplitude"], __call__=call,
            __init__=lambda self: setattr(self, "amplitude", 1e36 / u.eV)))
    return _ALIKE[kind]()


_ALIKE = {}


# ---------------------------------------------------------------------------------
def words(sc, depth):
    """All words of at most `depth` operations ending in an evaluation, containing an earlier
    evaluation if longer than one (others cannot tell a cache from none)."""
    ops = [("s", i) for i in range(len(sc["setters"]))] + [("e", i) for i in range(len(sc["evals"]))]
    evs = [o for o in ops if o[0] == "e"]
    if sc.get("pattern") == "ese":
        ss = [o for o in ops if o[0] == "s"]
        for a, b, c in itertools.product(evs, ss, evs):
            yield (a, b, c)
        return
    for d in range(1, depth + 1):
        for pre in itertools.product(ops, repeat=d - 1):
            if d > 1 and not any(o[0] == "e" for o in pre):
                continue
            if d > 2 and pre[0][0] == "s" and d == depth and sc.get("lean"):
                continue
            for ev in evs:
                yield pre + (ev,)


def canon(s):
    return repr(sorted(s.items()))


def wname(sc, w):
    return ">".join(sc["setters" if k == "s" else "evals"][i].name for k, i in w)


def run(ck):
    todo = []
    need = {}
    for sc in SC.values():
        depth = sc["depth"] if ck.quick else sc["tdepth"]
        ws = list(words(sc, depth))
        for w in ws:
            s = sc["s0"]
            for k, i in w:
                if k == "s":
                    s = sc["setters"][i].upd(s)
                else:
                    need.setdefault((sc["name"], canon(s), i), s)
        todo += [(sc["name"], w) for w in ws]
    ck.bounds = {n: dict(depth=sc["depth"] if ck.quick else sc["tdepth"], setters=len(sc["setters"]),
                         evaluations=len(sc["evals"])) for n, sc in SC.items()}

    keys = list(need)

    def ref(k):
        sc = SC[k[0]]
        return sc["evals"][k[2]](sc["build"](need[k]))

    REF = dict(zip(keys, fresh_process_map(ref, keys)))

    def one(ck, item):
        name, w = item
        sc = SC[name]

        def go():
            s = sc["s0"]
            o = sc["build"](s)
            for k, i in w:
                ck.step()
                if k == "s":
                    s = sc["setters"][i].upd(s)
                    sc["setters"][i].act(o, s)
                    ck.state((name, canon(s)))
                else:
                    got = observe(sc["evals"][i], o)
                    want = REF[(name, canon(s), i)]
                    ck.outcome((name, freeze(got)))
                    d = same(got, want, 1e-10)
                    if d:
                        raise Violation("after %s the result differs from a fresh model: %s" % (wname(sc, w), d))
            ck.state((name, "end", canon(s)))

        ck.case("%s:%s" % (name, wname(sc, w)), go)

    # keep the words of one scenario together per chunk for cheap forking
    ck.sample([todo[len(todo) // 2][0], wname(SC[todo[len(todo) // 2][0]], todo[len(todo) // 2][1])])
    ck.parallel(one, todo)

    # ---- cache capacity: n distinct evaluations, then each again, in both orders, twice
    cap = {}
    nmax = 24 if ck.quick else 40
    for r, (mkm, eu) in RAD.items():
        if r in ("k06", "ic2", "br") and ck.quick:
            continue
        cap[r] = fresh_process_map(
            lambda j: RAD[r][0](ecpl(S0)).flux([1.0 + j, 20.0] * u.Unit(RAD[r][1])), range(nmax))

    def capacity(ck, item):
        r, n, order = item

        def go():
            mkm, eu = RAD[r]
            m = mkm(ecpl(S0))
            seq = list(range(n))
            again = {"fifo": seq, "lifo": seq[::-1], "twice": seq + seq}[order]
            for j in seq + again:
                ck.step()
                got = observe(m.flux, [1.0 + j, 20.0] * u.Unit(eu))
                d = same(got, cap[r][j], 1e-10)
                if d:
                    raise Violation("evaluation %d after %d distinct ones: %s" % (j, n, d))
            ck.state(("cap", r, n, order))

        ck.case("capacity:%s:%d:%s" % item, go)

    ck.parallel(capacity, [(r, n, o) for r in cap for n in range(1, nmax + 1) for o in ("fifo", "lifo", "twice")])

    # ---- two objects alive at once
    combos = [(r, p, d) for r in RAD for p in TWO for d in (1, 2)]
    R2 = dict(zip(combos, fresh_process_map(two_ref, combos)))
    pairs = [(a, b) for a in RAD for b in RAD if a == b or (a[:2] == b[:2])]

    def two(ck, item):
        (ra, rb), (pa, pb), sched = item

        def go():
            objs = [RAD[ra][0](TWO[pa]()), None]
            if sched != "late":
                objs[1] = RAD[rb][0](TWO[pb]())
            order = {"abab": "abab", "aabb": "aabb", "late": "abab"}[sched]
            for n, who in enumerate(order):
                i = "ab".index(who)
                if objs[i] is None:
                    objs[i] = RAD[rb][0](TWO[pb]())
                r, p = ((ra, pa), (rb, pb))[i]
                ck.step()
                d = 1 + (n // 2 if sched == "aabb" else n // 2) % 2
                got = observe(objs[i].flux, [1.0, 20.0] * u.Unit(RAD[r][1]), distance=d * u.kpc)
                dd = same(got, R2[(r, p, d)], 1e-10)
                if dd:
                    raise Violation("%s(%s) used next to %s(%s): %s" % (r, p, ra, pa, dd))
            ck.state(("two", ra, rb, pa, pb, sched))

        ck.case("two:%s-%s:%s-%s:%s" % (ra, rb, pa, pb, sched), go)

    scheds = ("abab", "aabb", "late")
    items = [(pr, pp, s) for pr in pairs for pp in itertools.product(TWO, repeat=2) for s in scheds]
    if ck.quick:  # the slow adaptive model: only the first schedule
        items = [it for it in items if "k06" not in it[0] or it[2] == "abab"]
    ck.parallel(two, items)

    # ---- replacing the distribution of one object by a new one while the old is garbage
    def churn(ck, item):
        r, n = item

        def go():
            mkm, eu = RAD[r]
            m = mkm(UserDist(2.0))
            for j in range(n):
                m.particle_distribution = UserDist(2.0 + 0.1 * j)
                ck.step()
                got = observe(m.flux, [1.0, 20.0] * u.Unit(eu))
                want = mkm(UserDist(2.0 + 0.1 * j))
                want._memoize = False
                d = same(got, want.flux([1.0, 20.0] * u.Unit(eu)), 1e-10)
                if d:
                    raise Violation("distribution replaced %d times: %s" % (j, d))
            ck.state(("churn", r, n))

        ck.case("churn:%s:%d" % item, go)

    ck.parallel(churn, [(r, n) for r in ("sy", "ic", "pp") for n in (2, 5, 25)])
    # ---- changes of every size: each parameter moved by a factor 1 + 2^-k between evaluations
    def tiny(ck, item):
        name, par, k = item
        build, params, ev = TINY[name]

        def go():
            val = dict(params)
            m = build(val)
            m._memoize = True
            for step, f in enumerate((1.0, 1 + 2.0 ** -k, 1.0, 1 - 2.0 ** -k)):
                val[par] = params[par] * f
                if par in PHOTON:
                    pass
                elif isinstance(par, tuple):
                    m.seed_photon_fields[par[0]][par[1]] = val[par]
                elif par.startswith("pd."):
                    setattr(m.particle_distribution, par[3:], val[par])
                else:
                    setattr(m, par, val[par])
                ck.step()
                got = ev(m, val)
                fresh = build(val)
                fresh._memoize = False
                want = ev(fresh, val)
                d = same(got, want, 1e-14)
                if d:
                    raise Violation("%s moved by 2^-%d (step %d): %s" % (par, k, step, d))
            ck.state(("tiny", name, par, k))

        ck.case("tiny:%s:%s:%d" % (name, "-".join(par) if isinstance(par, tuple) else par, k), go)

    powers = (4, 12, 18, 24, 30, 36, 42, 46) if ck.quick else range(2, 50)
    ck.parallel(tiny, [(n, p, k) for n in TINY for p in TINY[n][1] for k in powers])

    # ---- each quantity: other number, same number in another unit, other number and unit, in place
    def put(m, par, v):
        if isinstance(par, tuple):
            m.seed_photon_fields[par[0]][par[1]] = v
        elif par.startswith("pd."):
            setattr(m.particle_distribution, par[3:], v)
        else:
            setattr(m, par, v)

    def holder(m, par):
        if isinstance(par, tuple):
            return m.seed_photon_fields[par[0]][par[1]]
        return getattr(m.particle_distribution, par[3:]) if par.startswith("pd.") else getattr(m, par)

    def forms(ck, item):
        name, par, word = item
        build, params, ev = TINY[name]

        def go():
            val = dict(params)
            m = build(dict(val, **{par: params[par].copy()}) if isinstance(par, str) else
                      {k: (v.copy() if k == par else v) for k, v in val.items()})
            m._memoize = True
            ev(m, val)
            q0 = params[par]
            for n, c in enumerate(word):
                if c == "i":  # the number held is changed where it is
                    if par in PHOTON:
                        continue
                    h = holder(m, par)
                    h *= 1.5
                    val[par] = h.copy()
                else:
                    val[par] = {"o": q0, "n": q0.value * OTHER[str(q0.unit)], "u": q0.to(OTHER[str(q0.unit)]),
                                "b": 1.25 * q0}[c].copy()
                    if par not in PHOTON:
                        put(m, par, val[par].copy())
                ck.step()
                got = observe(ev, m, val)
                fresh = build({k: (v.copy() if isinstance(v, u.Quantity) else v) for k, v in val.items()})
                fresh._memoize = False
                d = same(got, observe(ev, fresh, val), 1e-12)
                if d:
                    raise Violation("%s given as %s, at %d: %s" % (par, word, n, d))
            ck.state(("forms", name, par, word))

        ck.case("forms:%s:%s:%s" % (name, "-".join(par) if isinstance(par, tuple) else par, word), go)

    ck.parallel(forms, [(n, p, "".join(w)) for n in TINY for p in TINY[n][1]
                        if isinstance(TINY[n][1][p], u.Quantity)
                        for d in range(1, 3 if ck.quick else 5) for w in itertools.product("onubi", repeat=d)])

    # ---- the numbers of two parameters exchanged
    def swap(ck, item):
        name, a, b = item
        build, params, ev = TINY[name]

        def go():
            val = dict(params)
            m = build(val)
            m._memoize = True
            for n in range(4):
                ck.step()
                got = observe(ev, m, val)
                fresh = build(val)
                fresh._memoize = False
                d = same(got, observe(ev, fresh, val), 1e-12)
                if d:
                    raise Violation("%s and %s exchanged %d times: %s" % (a, b, n, d))
                if n == 0:  # numbers that can be exchanged
                    x, y = 1.9, 2.6
                else:
                    x, y = y, x
                for p, v in ((a, x), (b, y)):
                    q = params[p]
                    val[p] = v * q.unit if isinstance(q, u.Quantity) else v
                    put(m, p, val[p])
            ck.state(("swap", name, a, b))

        ck.case("swap:%s:%s:%s" % (name, a, b), go)

    ck.parallel(swap, [(n, a, b) for n in TINY
                       for a, b in itertools.combinations(
                           [p for p in TINY[n][1] if isinstance(p, str) and p not in PHOTON], 2)])

    # ---- distributions of different classes that carry the same name, parameters and values
    def alike(ck, item):
        r, word = item

        def go():
            mkm, eu = RAD[r]
            m = mkm(alike_dist("a"))
            for n, c in enumerate(word):
                m.particle_distribution = alike_dist(c)
                ck.step()
                got = observe(m.flux, [1.0, 20.0] * u.Unit(eu))
                f = mkm(alike_dist(c))
                f._memoize = False
                d = same(got, observe(f.flux, [1.0, 20.0] * u.Unit(eu)), 1e-12)
                if d:
                    raise Violation("classes of the same name, %s, at %d: %s" % (word, n, d))
            ck.state(("alike", r, word))

        ck.case("alike:%s:%s" % item, go)

    ck.parallel(alike, [(r, "".join(w)) for r in RAD if r != "k06" or not ck.quick
                        for d in (2, 3) for w in itertools.product("abc", repeat=d)])
    ck.assumptions = [
        "The reference value of a state is what a newly built object returns in a freshly forked "
        "process; a defect present in the very first evaluation is the business of C08-C10.",
        "Particle and photon grids are coarse (6-20 points per decade): caching does not depend on them.",
    ]
