"""Reference formulas for bremsstrahlung and proton-proton emission, written from the publications.

Plain floats; no code shared with naima.
  B99    Baring et al. 1999, ApJ 513, 311, Appendix (Eqs. A1-A7)
  K14    Kafexhiu et al. 2014, PRD 90, 123014
  KAB06  Kelner, Aharonian & Bugayov 2006, PRD 74, 034018
"""
import numpy as np
from astropy import constants as C

from .ref_em import C_CM, MEC2, R0, loglog

ALPHA = C.alpha.value
MP = (C.m_p * C.c**2).to("GeV").value
MPI = 0.1349766
TTH = 0.27966184


# -- bremsstrahlung; photon energy e and Lorentz factor g in mec2, cm2/mec2 ----------------
def s1(g, e):
    k = e / g
    with np.errstate(all="ignore"):
        v = 4 * R0**2 * ALPHA / e * (1 + (1 / 3 - k) * (1 - k)) * (np.log(2 * g * (g - e) / e) - 0.5)
        z = 4 * R0**2 * ALPHA / e * (1 + (1 / 3 - k) * (1 - k)) * 0
    return np.where(g > e, v, z)


def s2(g, e):
    with np.errstate(all="ignore"):
        br = (1 / (4 * e**3) - 1 / (2 * e**2) + 3 / e - 2 + 4 * e)
        rest = -1 / e**2 + 3 / e - 4 - 4 * e - 8 * e**2 - 2 * np.where(
            e == 0.5, 0.0, (1 - 2 * e) * np.log(1 - 2 * e)) * br
        ser = 28 / 3 - 70 / 3 * e  # the limit of the line above
        lo = 16 * (1 - e + e**2) * np.log(g / e) + np.where(e < 3e-4, ser, rest)
        hi = 2 / e * ((4 - 1 / e + 1 / (4 * e**2)) * np.log(2 * g) - 2 + 2 / e - 5 / (8 * e**2))
        v = R0**2 * ALPHA / (3 * e) * np.where(e <= 0.5, lo, hi)
    return np.where(g > e, v, 0.0)


def see(g, e):
    with np.errstate(all="ignore"):
        A = 1 - 8 / 3 * (g - 1) ** 0.2 / (g + 1) * (e / g) ** (1 / 3)
        rel = (s1(g, e) + s2(g, e)) * A
        b = np.sqrt(1 - 1 / g**2)
        x = 4 * e / (g**2 - 1)
        Bf = 1 + 0.5 * (g**2 - 1)
        Cf = 10 * x * g * b * (2 + g * b) / (1 + x**2 * (g**2 - 1))
        F = Bf * (17 - 3 * x**2 / (2 - x) ** 2 - Cf) * np.sqrt(1 - x)
        F = F + (12 * (2 - x) - 7 * x**2 / (2 - x) - 3 * x**4 / (2 - x) ** 3) * np.log((1 + np.sqrt(1 - x)) / np.sqrt(x))
        nr = np.where(x < 1, 4 * R0**2 * ALPHA / (15 * e) * F, 0.0)
    return np.where(g * MEC2 > 2e6 * 1.602176634e-12, rel, nr)


def brems(e, g, ne, n0, wee, wep):
    """photons/(s mec2); e (k,), g (n,), ne per unit Lorentz factor"""
    e = e[:, None]
    tot = np.zeros(e.shape[0])
    if wee:
        tot = tot + wee * loglog(ne * see(g, e), g)
    if wep:
        tot = tot + wep * loglog(ne * s1(g, e), g)
    return n0 * C_CM * tot


# -- Kafexhiu et al. -----------------------------------------------------------------------
TRANS = dict(Pythia8=50.0, SIBYLL=100.0, QGSJET=100.0, Geant4=100.0)
T4 = dict(Geant4=(0.728, 0.596, 0.491, 0.2503, 0.117), Pythia8=(0.652, 0.0016, 0.488, 0.1928, 0.483),
          SIBYLL=(5.436, 0.254, 0.072, 0.075, 0.166), QGSJET=(0.908, 0.0009, 6.089, 0.176, 0.448))
T7 = dict(lo=(9.53, 0.52, 0.054), Geant4=(9.13, 0.35, 9.7e-3), Pythia8=(9.06, 0.3795, 0.01105),
          SIBYLL=(10.77, 0.412, 0.01264), QGSJET=(13.16, 0.4419, 0.01439))
T5 = dict(Geant4=(3.0, 0.5, 4.9, 1.0), Pythia8=(3.5, 0.5, 4.0, 1.0), SIBYLL=(3.55, 0.5, 3.6, 1.0),
          QGSJET=(3.55, 0.5, 4.5, 1.0))


def sig_inel(T):
    L = np.log(T / TTH)
    return (30.7 - 0.96 * L + 0.18 * L**2) * (1 - (TTH / T) ** 1.9) ** 3


def sig_pi0(T, model):
    """mb"""
    s = 2 * MP * (T + 2 * MP)
    rs = np.sqrt(s)
    if T < 2:
        M, G = 1.1883, 0.2264
        g = np.sqrt(M**2 * (M**2 + G**2))
        K = np.sqrt(8) * M * G * g / (np.pi * np.sqrt(M**2 + g))
        f = MP * K / (((rs - MP) ** 2 - M**2) ** 2 + M**2 * G**2)
        eta = np.sqrt((s - MPI**2 - 4 * MP**2) ** 2 - 16 * MPI**2 * MP**2) / (2 * MPI * rs)
        one = 7.66e-3 * eta**1.95 * (1 + eta + eta**5) * f**1.86
        two = 5.7 / (1 + np.exp(-9.3 * (T - 1.4))) if T >= 0.56 else 0.0
        return one + two
    if T < 5:
        Q = (T - TTH) / MP
        return sig_inel(T) * (-6e-3 + 0.237 * Q - 0.023 * Q**2)
    a = T4[model] if T >= TRANS[model] else T4["Geant4"]
    xi = (T - 3.0) / MP
    return sig_inel(T) * a[0] * xi ** a[3] * (1 + np.exp(-a[1] * xi ** a[4])) * (1 - np.exp(-a[2] * xi**0.25))


def kin(T):
    s = 2 * MP * (T + 2 * MP)
    E = (s - 4 * MP**2 + MPI**2) / (2 * np.sqrt(s))
    P = np.sqrt(E**2 - MPI**2)
    gc = (T + 2 * MP) / np.sqrt(s)
    Epi = gc * (E + P * np.sqrt(1 - 1 / gc**2))
    gl = Epi / MPI
    return Epi, MPI / 2 * gl * (1 + np.sqrt(1 - 1 / gl**2))


def dsig(T, Eg, model, nuc):
    """mb/GeV at one proton kinetic energy, array of photon energies (GeV)"""
    Eg = np.asarray(Eg, float)
    if T <= TTH:
        return np.zeros_like(Eg)
    Epi, Emax = kin(T)
    th = T / MP
    if T < 1:
        A = 5.9 * sig_pi0(T, model) / Epi
    else:
        b = T7["lo"] if T < 5 else (T7[model] if T >= TRANS[model] else T7["Geant4"])
        A = b[0] * th ** -b[1] * np.exp(b[2] * np.log(th) ** 2) * sig_pi0(T, model) / MP
    q = (T - 1) / MP
    mu = 1.25 * q**1.25 * np.exp(-1.25 * q) if T > 1 else 0
    if T > TRANS[model]:
        lam, al, be, ga = T5[model]
    elif T <= 1:
        lam, al, be, ga = 1.0, 1.0, 3.29 - 0.2 * th**-1.5, 0.0
    elif T <= 4:
        lam, al, be, ga = 3.0, 1.0, mu + 2.45, mu + 1.45
    elif T <= 20:
        lam, al, be, ga = 3.0, 1.0, 1.5 * mu + 4.95, mu + 1.5
    else:
        lam, al, be, ga = 3.0, 0.5, 4.2, 1.0
    Y = Eg + MPI**2 / (4 * Eg)
    Ym = Emax + MPI**2 / (4 * Emax)
    X = np.minimum((Y - MPI) / (Ym - MPI), 1.0)
    F = (1 - X**al) ** be / (1 + X * Ym / (lam * MPI)) ** ga
    out = A * F
    if nuc:
        if T < 1:
            out = out * 1.9141
        else:
            G = 1 + np.log(max(1.0, sig_inel(T) / sig_inel(1e3)))
            out = out * (1.37 + 0.39 * 10 * np.pi * G / sig_inel(T))
    return out


def pgrid(lo, hi, n):
    a, b = np.log10(lo), np.log10(hi)
    return np.logspace(a, b, max(10, int(n * np.log10(hi / lo))))


_TAB = {}


def pp(Eg, Ep, J, model, nuc):
    """photons/(s GeV) per target proton/cm3; J per GeV on the grid Ep (GeV)"""
    key = (len(Ep), Ep[0], Ep[-1], model, nuc, tuple(Eg))
    if key not in _TAB:
        _TAB[key] = np.array([dsig(E - MP, Eg, model, nuc) for E in Ep]).T * 1e-27
    return C_CM * loglog(_TAB[key] * J, Ep)


# -- Kelner et al. (TeV) -------------------------------------------------------------------
MP_T, MPI_T, KPI = MP * 1e-3, 1.349766e-4, 0.17


def k_sig(E):
    L = np.log(E)
    v = 34.3 + 1.88 * L + 0.25 * L**2
    thr = np.where(E <= 0.1, np.where(E > 1.22e-3, (1 - (1.22e-3 / E) ** 4) ** 2, 0.0), 1.0)
    return v * thr * 1e-27


def k_F(x, E):
    L = np.log(E)
    B = 1.3 + 0.14 * L + 0.011 * L**2
    be = 1 / (1.79 + 0.11 * L + 0.008 * L**2)
    k = 1 / (0.801 + 0.049 * L + 0.014 * L**2)
    xb = x**be
    return (B * np.log(x) / x * ((1 - xb) / (1 + k * xb * (1 - xb))) ** 4
            * (1 / np.log(x) - 4 * be * xb / (1 - xb) - 4 * k * be * xb * (1 - 2 * xb) / (1 + k * xb * (1 - xb))))


def _gl(a, b, cells, order=8):
    x, w = np.polynomial.legendre.leggauss(order)
    e = np.linspace(a, b, cells + 1)
    m, h = 0.5 * (e[1:] + e[:-1]), 0.5 * np.diff(e)
    return (m[:, None] + h[:, None] * x).ravel(), (h[:, None] * w).ravel()


def k_hi(Eg, J):
    t, w = _gl(-14.0, -1e-9, 300)
    x = np.exp(t)
    E = Eg / x
    return C_CM * np.sum(w * k_sig(E) * J(E) * k_F(x, E))


def k_lo(Eg, J):
    Emin = Eg + MPI_T**2 / (4 * Eg)
    # E = Emin cosh-like substitution removing the square root
    t, w = _gl(0.0, 24.0, 400)
    # E = mpi cosh(s + s0), cosh(s0) = Emin/mpi
    s0 = np.arccosh(max(Emin / MPI_T, 1.0))
    E = MPI_T * np.cosh(s0 + t)
    Ep = MP_T + E / KPI
    return 2 * C_CM / KPI * np.sum(w * k_sig(Ep) * J(Ep))


def k_spec(Eg, J, Etrans):
    nh = k_hi(Etrans, J) / k_lo(Etrans, J)
    return np.array([k_hi(e, J) if e >= Etrans else nh * k_lo(e, J) for e in Eg])
