"""Small helpers shared by the checks."""
import multiprocessing as _mp
import os
import traceback

import numpy as np
from astropy import units as u

from .harness import HarnessError, Violation


class Raised:
    """Observation of an exception raised by the code under test."""

    def __init__(self, e):
        self.kind = type(e).__name__
        self.text = str(e)[:160]

    def __repr__(self):
        return "raised %s(%s)" % (self.kind, self.text)


def observe(fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:  # noqa
        return Raised(e)


def same(got, want, rtol=1e-9, atol=0.0):
    """None if equal, else a description of the difference."""
    if isinstance(want, Raised) or isinstance(got, Raised):
        if isinstance(want, Raised) and isinstance(got, Raised) and want.kind == got.kind:
            return None
        return "got %r, expected %r" % (got, want)
    if isinstance(want, u.Quantity) or isinstance(got, u.Quantity):
        got = u.Quantity(got)
        want = u.Quantity(want)
        try:
            g = got.to(want.unit).value
        except u.UnitsError:
            return "unit %s instead of %s" % (got.unit, want.unit)
        w = want.value
    else:
        g, w = np.asarray(got), np.asarray(want)
    if np.shape(g) != np.shape(w):
        return "shape %s instead of %s" % (np.shape(g), np.shape(w))
    g, w = np.asarray(g, dtype=float), np.asarray(w, dtype=float)
    ok = (g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= rtol * np.abs(w) + atol)
    if np.all(ok):
        return None
    i = np.argmin(np.atleast_1d(ok).ravel())
    return "value %r instead of %r (element %d of %s)" % (
        float(np.ravel(g)[i]), float(np.ravel(w)[i]), i, np.shape(w))


def need(msg, got, want, rtol=1e-9, atol=0.0):
    d = same(got, want, rtol, atol)
    if d is not None:
        raise Violation("%s: %s" % (msg, d))


def freeze(x):
    """Canonical printable form of a result, for outcome counting."""
    if isinstance(x, Raised):
        return x.kind
    if isinstance(x, u.Quantity):
        return (str(x.unit), np.asarray(x.value).shape, tuple(np.ravel(["%.9e" % v for v in np.ravel(x.value)])))
    return tuple("%.9e" % float(v) for v in np.ravel(x))


_REF_FN = None


def _ref_worker(arg):
    try:
        return ("ok", observe(_REF_FN, arg))
    except Exception:  # noqa
        return ("err", traceback.format_exc())


def fresh_process_map(fn, args):
    """fn(arg) for every arg, each in its own forked process in which nothing was ever evaluated."""
    global _REF_FN
    _REF_FN = fn
    args = list(args)
    if not args:
        return []
    ctx = _mp.get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=1) as pool:
        out = pool.map(_ref_worker, args, chunksize=1)
    for st, r in out:
        if st != "ok":
            raise HarnessError(r)
    return [r for _, r in out]
