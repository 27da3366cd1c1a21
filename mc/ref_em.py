"""Reference formulas for synchrotron and inverse Compton, written from the publications.

Plain CGS floats; no code shared with naima.
  AKP10    Aharonian, Kelner & Prosekin 2010, PRD 82, 043002, Eq. D7
  KAK14    Khangulyan, Aharonian & Kelner 2014, ApJ 783, 100, Eqs. 11, 14, 20-27
  AA81     Aharonian & Atoyan 1981, Ap&SS 79, 321, Eq. 22
"""
import numpy as np
from astropy import constants as C

E_ESU = C.e.gauss.value
C_CM = C.c.cgs.value
HBAR = C.hbar.cgs.value
ME = C.m_e.cgs.value
MEC2 = ME * C_CM**2  # erg
KB = C.k_B.cgs.value
SIGT = 6.652458734983284e-25
A_R = 4 * C.sigma_sb.cgs.value / C_CM
EV = 1.602176634e-12
R0 = E_ESU**2 / MEC2


def loglog(y, x):
    """log-log trapezoid over the last axis"""
    y1, y2, x1, x2 = y[..., :-1], y[..., 1:], x[..., :-1], x[..., 1:]
    with np.errstate(all="ignore"):
        L = np.log(x2 / x1)
        p = np.log(y2 / y1) / L + 1
        v = np.where(np.abs(p) > 1e-9, (y2 * x2 - y1 * x1) / p, x1 * y1 * L)
    v = np.where((y1 == 0) | (y2 == 0) | (x1 == x2), 0.0, v)
    return v.sum(axis=-1)


def grid(lo, hi, n):
    """documented electron grid: n points per decade, at least 10; Lorentz factors"""
    a, b = np.log10(lo / MEC2), np.log10(hi / MEC2)
    return np.logspace(a, b, max(10, int(n * (b - a))))


def gauss_log(lo, hi, cells=400, order=5):
    """nodes and weights for \\int f dx in log x (independent quadrature)"""
    t = np.linspace(np.log(lo), np.log(hi), cells + 1)
    x, w = np.polynomial.legendre.leggauss(order)
    m, h = 0.5 * (t[1:] + t[:-1]), 0.5 * np.diff(t)
    xx = np.exp((m[:, None] + h[:, None] * x).ravel())
    return xx, (h[:, None] * w).ravel() * xx


# -- synchrotron --------------------------------------------------------------------------
def sync_kernel(E, gam, B):
    """photons / (s erg) of one electron; E[erg] (..., 1), gam (..., n)"""
    Ec = 1.5 * E_ESU * HBAR * B * gam**2 / (ME * C_CM)
    x = E / Ec
    t = x ** (1 / 3.0)
    G = 1.808 * t / np.sqrt(1 + 3.4 * t**2)
    G = G * (1 + 2.21 * t**2 + 0.347 * t**4) / (1 + 1.353 * t**2 + 0.217 * t**4) * np.exp(-x)
    return np.sqrt(3) / (2 * np.pi) * E_ESU**3 * B / (MEC2 * HBAR * E) * G


# -- inverse Compton ----------------------------------------------------------------------
def _g(x, al, a, be, b):
    return 1.0 / (1 + a * x**al / (1 + b * x**be))


PI26 = np.pi**2 / 6


def F1(x):
    return (PI26 + x) * np.exp(-x) * _g(x, 0.857, 0.153, 1.840, 0.254)


def F2(x):
    return (PI26 + x) * np.exp(-x) * _g(x, 0.691, 1.330, 1.668, 0.534)


def F3(x):
    c = 0.319
    return PI26 * (1 + c * x) / (1 + PI26 * c * x) * np.exp(-x) * _g(x, 0.606, 0.443, 1.481, 0.540)


def F4(x):
    c = 6.620
    return PI26 * (1 + c * x) / (1 + PI26 * c * x) * np.exp(-x) * _g(x, 0.461, 0.726, 1.457, 0.382)


def ic_thermal(eg, gam, T, theta=None):
    """photons / (s mec2) of one electron in a black body; energies in units of mec2.

    KAK14 Eqs. 11 and 14: 2 r0^2 m^3 c^4 T^2 / (pi hbar^3 E^2) [...]"""
    t = KB * T / MEC2
    with np.errstate(all="ignore"):
        z = eg / gam
        if theta is None:
            x = z / (1 - z) / (4 * gam * t)
            s = z**2 / (2 * (1 - z)) * F3(x) + F4(x)
        else:
            x = z / (1 - z) / (2 * gam * t * (1 - np.cos(theta)))
            s = z**2 / (2 * (1 - z)) * F1(x) + F2(x)
        s = s * 2 * R0**2 * (ME * C_CM / HBAR) ** 3 * C_CM / np.pi * (t / gam) ** 2
    return np.where((eg < gam) & (gam > 1), s, 0.0)


def ic_mono(eg, gam, e0):
    """photons / (s mec2) of one electron per target photon / cm3 of energy e0 (mec2): AA81 Eq. 22"""
    with np.errstate(all="ignore"):
        b = 4 * e0 * gam
        w = eg / gam
        q = w / (b * (1 - w))
        f = 2 * q * np.log(q) + (1 + 2 * q) * (1 - q) + 0.5 * (b * q) ** 2 * (1 - q) / (1 + b * q)
        f = np.where((q <= 1) & (q >= 1 / (4 * gam**2)), f, 0.0)
    return 0.75 * SIGT * C_CM / gam**2 / e0 * f


def planck(e, T):
    """photons / (cm3 mec2) of a black body at energy e (mec2)"""
    with np.errstate(all="ignore"):
        x = e * MEC2 / (KB * T)
        lam = HBAR / (ME * C_CM)
        return e**2 / (np.pi**2 * lam**3) / np.expm1(x)
