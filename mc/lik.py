"""Log-posterior of parameter vectors as naima's own samplers compute it (public interfaces only)."""
import contextlib
import io

import numpy as np

from naima.core import get_sampler


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def make_sampler(data, model, p0, prior=None, nwalkers=None, **kw):
    kw.setdefault("nburn", 0)
    kw.setdefault("guess", False)
    kw.setdefault("threads", 1)
    with quiet():
        s, pos = get_sampler(data_table=data, p0=p0, model=model, prior=prior,
                             nwalkers=nwalkers or 2 * len(p0), **kw)
    return s, pos


def logposts(data, model, pars, prior=None, **kw):
    """[(log-posterior, blobs)] of every parameter vector."""
    pars = np.atleast_2d(np.asarray(pars, dtype=float))
    s, _ = make_sampler(data, model, pars[0].copy(), prior, **kw)
    lp, bl = s.compute_log_prob(pars)
    return [(float(a), b) for a, b in zip(lp, bl)]


def loglikes(data, model, pars, **kw):
    return [a for a, _ in logposts(data, model, pars, **kw)]
