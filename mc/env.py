"""Import naima from /repo's working tree, deterministically.

Must be imported before anything imports naima.  Third party packages are imported
first with their usual byte-code caches; naima itself is then imported with byte-code
caches switched off, so a stale .pyc can never stand in for the current source.
"""
import os
import sys
import types
import warnings

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

REPO = os.environ.get("NAIMA_REPO", "/repo")
SRC = os.path.join(REPO, "src")

import numpy as np  # noqa
import scipy.integrate  # noqa
import scipy.interpolate  # noqa
import scipy.special  # noqa
import astropy  # noqa
import astropy.units  # noqa
import astropy.table  # noqa
import astropy.constants  # noqa
import h5py  # noqa
import emcee  # noqa
import yaml  # noqa
import matplotlib  # noqa
import matplotlib.pyplot  # noqa
import corner  # noqa

try:
    import logging

    logging.getLogger("sherpa").setLevel(logging.ERROR)
    import sherpa.models  # noqa
    import sherpa.data  # noqa
except ImportError:
    pass

# naima is to be found in the working tree only
sys.path[:] = [p for p in sys.path if not p.rstrip("/").endswith("/repo/src")]
sys.path.insert(0, SRC)
sys.pycache_prefix = "/nonexistent-pycache"
if not os.path.exists(os.path.join(SRC, "naima", "version.py")):
    m = types.ModuleType("naima.version")
    m.__version__ = m.version = "0"
    sys.modules["naima.version"] = m

import naima  # noqa

assert os.path.realpath(naima.__file__).startswith(os.path.realpath(SRC) + os.sep), naima.__file__

logging.getLogger("naima.radiative").setLevel(logging.CRITICAL)
astropy.log.setLevel("CRITICAL")
np.seterr(all="ignore")
warnings.resetwarnings()
warnings.simplefilter("ignore")
