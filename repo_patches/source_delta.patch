From 0a547912d85fd1fcfbd3a7eb7076b9448978f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 01/59] fix: make cached model results exact and independent of
 the caller

The cache key mixed up the default distance with distance=0, the energy array
shape and neighbouring parameter values, truncated array parameters, and did
not notice changes of particle distributions without param_names. The stored
array itself was returned, so modifying a result corrupted later ones, and
photon_energy could not be passed by keyword.
---
 src/naima/model_utils.py | 84 +++++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 32 deletions(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index 634b875..0294080 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -1,16 +1,46 @@
 # -*- coding: utf-8 -*-
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
 import hashlib
+import inspect
 import warnings
+from functools import wraps
 
 import numpy as np
 from astropy import units as u
 
 
+def _token(value):
+    """Exact and unambiguous text representation of a value for the cache key"""
+    if isinstance(value, u.Quantity):
+        return "Quantity({0},{1})".format(_token(value.value), value.unit.to_string())
+    elif isinstance(value, np.ndarray) and value.dtype != object:
+        return "array({0},{1},{2})".format(
+            value.dtype.str,
+            value.shape,
+            # tobytes is 10 times faster than str(array).encode()
+            hashlib.sha256(value.tobytes()).hexdigest(),
+        )
+    elif isinstance(value, dict):
+        return "dict({0})".format(
+            ",".join("{0!r}:{1}".format(k, _token(v)) for k, v in value.items())
+        )
+    elif isinstance(value, (list, tuple)):
+        return "list({0})".format(",".join(_token(v) for v in value))
+    else:
+        return repr(value)
+
+
 def memoize(func):
     """Cache decorator for functions inside model classes"""
 
-    def model(cls, energy, *args, **kwargs):
+    signature = inspect.signature(func)
+
+    @wraps(func)
+    def model(*args, **kwargs):
+        bound = signature.bind(*args, **kwargs)
+        bound.apply_defaults()
+        cls, energy, *params = bound.arguments.values()
+
         try:
             memoize = cls._memoize
             cache = cls._cache
@@ -18,6 +48,13 @@ def memoize(func):
         except AttributeError:
             memoize = False
 
+        models = [cls]
+        if hasattr(cls, "particle_distribution"):
+            models.append(cls.particle_distribution)
+            # Results can only be reused if the state of the particle
+            # distribution is known
+            memoize = memoize and hasattr(cls.particle_distribution, "param_names")
+
         if memoize:
             # Allow for dicts or tables with energy column, Quantity array or
             # Quantity scalar
@@ -31,49 +68,32 @@ def memoize(func):
             except (TypeError, ValueError, IndexError):
                 pass
 
-            try:
-                # tostring is 10 times faster than str(array).encode()
-                bstr = energy.value.tobytes()
-            except AttributeError:
-                # scalar Quantity
-                bstr = str(energy.value).encode()
-
-            data = [hashlib.sha256(bstr).hexdigest()]
-
-            data.append(energy.unit.to_string())
-            data.append(str(kwargs.get("distance", 0)))
-
-            if args:
-                data.append(str(args))
-            if hasattr(cls, "particle_distribution"):
-                models = [cls, cls.particle_distribution]
-            else:
-                models = [cls]
-            for model in models:
-                if hasattr(model, "param_names"):
-                    for par in model.param_names:
-                        data.append(str(getattr(model, par)))
-
-            token = "".join(data)
+            data = [_token(u.Quantity(energy))]
+            data += [_token(param) for param in params]
+
+            for m in models:
+                data.append("{0}@{1}".format(type(m).__name__, id(type(m))))
+                for par in getattr(m, "param_names", []):
+                    data.append("{0}={1}".format(par, _token(getattr(m, par))))
+
+            token = "|".join(data)
             digest = hashlib.sha256(token.encode()).hexdigest()
 
             if digest in cache:
-                return cache[digest]
+                # never hand out the stored array itself
+                return cache[digest].copy()
 
-        result = func(cls, energy, *args, **kwargs)
+        result = func(cls, energy, *params)
 
-        if memoize:
+        if memoize and hasattr(result, "copy"):
             # remove first item in queue and remove from cache
             if len(queue) > 16:
                 key = queue.pop(0)
                 cache.pop(key, None)
             # save last result to cache
             queue.append(digest)
-            cache[digest] = result
+            cache[digest] = result.copy()
 
         return result
 
-    model.__name__ = func.__name__
-    model.__doc__ = func.__doc__
-
     return model
-- 
2.43.0


From 1a7b22e05a939b9cb57c44cb0c86181a671f1709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 02/59] fix: return the inverse Compton seed contribution of
 the call it is asked for

The seed spectra of the last computed total were returned, which belong to
other energies or parameters whenever the total came from the cache. Also raise
ValueError for a seed number just past the end, and accept tables in sed().
---
 src/naima/radiative.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 3db562e..75b5868 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -739,7 +739,9 @@ class InverseCompton(BaseElectron):
                     )
                 else:
                     seed = list(self.seed_photon_fields.keys()).index(seed)
-            elif seed > len(self.seed_photon_fields):
+            elif not -len(self.seed_photon_fields) <= seed < len(
+                self.seed_photon_fields
+            ):
                 raise ValueError(
                     "Provided seed photon field number is larger"
                     " than the number of seed photon fields defined in the"
@@ -754,7 +756,10 @@ class InverseCompton(BaseElectron):
                 dfac = 1
                 out_unit = "1/(s eV)"
 
-            model = (self.specic[seed] / dfac).to(out_unit)
+            # self.specic may stem from another call if the total was cached
+            name = list(self.seed_photon_fields.keys())[seed]
+            specic = self._calc_specic(name, _validate_ene(photon_energy))
+            model = (specic / dfac).to(out_unit)
 
         return model
 
@@ -783,6 +788,8 @@ class InverseCompton(BaseElectron):
             else:
                 out_unit = "erg/s"
 
+            photon_energy = _validate_ene(photon_energy)
+
             sed = (
                 self.flux(photon_energy, distance=distance, seed=seed)
                 * photon_energy**2.0
-- 
2.43.0


From 782853210fc601425f03670b4a0d4120d120d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 03/59] fix: accept scalar photon energies in all radiative
 models

Only Synchrotron and Bremsstrahlung worked with a scalar energy, the other
models raised TypeError or IndexError.
---
 src/naima/radiative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 75b5868..833af1a 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -55,7 +55,8 @@ def _validate_ene(ene):
             ene = u.Quantity(ene)
         validate_physical_type("energy", ene, physical_type="energy")
 
-    return ene
+    # the spectra are computed for arrays of energies
+    return np.atleast_1d(ene)
 
 
 class BaseRadiative:
-- 
2.43.0


From a9db893a376cba3ed6ee04f312d51976d280bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 04/59] fix: match both regimes of PionDecayKelner06 for any
 set of energies

The low energy approximation was only normalised to the full calculation if the
same request also had energies above Etrans, so the flux at a given energy
depended on which other energies were asked for.
---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 833af1a..e11b2bd 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1755,7 +1755,7 @@ class PionDecayKelner06(BaseRadiative):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
             self.nhat = 1.0  # initial value, works for index~2.1
-            if np.any(outspecene < self.Etrans) and np.any(outspecene >= self.Etrans):
+            if np.any(outspecene < self.Etrans):
                 # compute value of nhat so that delta functional matches
                 # accurate calculation at 0.1TeV
                 full = self._calc_specpp_hiE(self.Etrans)
-- 
2.43.0


From 7b62800ca6edb358081aa4fb94cf0b21d63e3b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 05/59] fix: bremsstrahlung flux at a photon energy equal to an
 electron energy

The logarithm of zero at the kinematic limit made the flux NaN at, e.g., exactly
100 MeV, the default minimum electron energy.
---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index e11b2bd..6fbc9e5 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -853,7 +853,7 @@ class Bremsstrahlung(BaseElectron):
         s1 = 4 * r0**2 * alpha / eps / mec2_unit
         s2 = 1 + (1.0 / 3.0 - eps / gam) * (1 - eps / gam)
         s3 = np.log(2 * gam * (gam - eps) / eps) - 1.0 / 2.0
-        s3[np.where(gam < eps)] = 0.0
+        s3[np.where(gam <= eps)] = 0.0
         return s1 * s2 * s3
 
     @staticmethod
-- 
2.43.0


From 0bb22d42f5ce4ed291bb2c76c4d57eb7e8807a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 06/59] fix: allow pure electron-electron or electron-ion
 bremsstrahlung

Setting either weight to zero, as suggested in the documentation, raised
UnitConversionError.
---
 src/naima/radiative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 6fbc9e5..723aaf7 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -950,7 +950,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-electron bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ee == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros(Eph.shape) * u.cm**3 / u.s / Eph.unit
 
         gam = np.vstack(self._gam)
         # compute integral with electron distribution
@@ -966,7 +966,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-proton bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ep == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros(Eph.shape) * u.cm**3 / u.s / Eph.unit
 
         gam = np.vstack(self._gam)
         eps = (Eph / mec2).decompose().value
-- 
2.43.0


From 1f571342084ad3b5a4654ffb001428874d968609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 07/59] fix: do not use the pion decay lookup table outside of
 its range

The table is not extrapolated but evaluated at its edge, so photons below 10 MeV
were overestimated by orders of magnitude and photons far above the maximum
proton energy were produced.
---
 src/naima/radiative.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 723aaf7..7999297 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1534,7 +1534,10 @@ class PionDecay(BaseProton):
 
         specpp = []
         for Eg in Egamma:
-            diffsigma = self.diffsigma(Ep.value, Eg.value) * u.Unit("cm2/GeV")
+            if self.useLUT and not self.diffsigma.covers(Ep.value, Eg.value):
+                diffsigma = self._diffsigma(Ep.value, Eg.value) * u.Unit("cm2/GeV")
+            else:
+                diffsigma = self.diffsigma(Ep.value, Eg.value) * u.Unit("cm2/GeV")
             specpp.append(trapz_loglog(diffsigma * J, Ep))
 
         self.specpp = u.Quantity(specpp)
@@ -1800,6 +1803,17 @@ class LookupTable:
         lut = f_lut.f.lut
         self.int_lut = RectBivariateSpline(X, Y, 10**lut, kx=3, ky=3, s=0)
         self.fname = filename
+        self._X, self._Y = X, Y
+
+    def covers(self, X, Y):
+        """Whether all of X and Y are within the table, which does not extrapolate"""
+        logX, logY = np.log10(X), np.log10(Y)
+        return (
+            np.min(logX) > self._X[0] - 1e-8
+            and np.max(logX) < self._X[-1] + 1e-8
+            and np.min(logY) > self._Y[0] - 1e-8
+            and np.max(logY) < self._Y[-1] + 1e-8
+        )
 
     def __call__(self, X, Y):
         return self.int_lut(np.log10(X), np.log10(Y)).flatten()
-- 
2.43.0


From 34068656a67fc3abacaf753f9a64b6ab64b22d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 08/59] fix: missing pion decay lookup table no longer disables
 the existing one

Evaluating with a high energy model that has no table switched useLUT off for
good, so that later results depended on the evaluation history.
---
 src/naima/radiative.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 7999297..d3ced4d 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1495,10 +1495,11 @@ class PionDecay(BaseProton):
             self.diffsigma = LookupTable(filename)
         except IOError:
             warnings.warn(
-                "LUT {0} not found, reverting to useLUT = False".format(LUT_fname)
+                "LUT {0} not found, not using a lookup table".format(LUT_fname)
             )
             self.diffsigma = self._diffsigma
-            self.useLUT = False
+            # keep useLUT: a table might be available for other settings
+            self._LUT_not_found = LUT_fname
 
     def _spectrum(self, photon_energy):
         """
@@ -1521,7 +1522,9 @@ class PionDecay(BaseProton):
             LUT_fname = LUT_base + "{0}.npz".format(self.hiEmodel)
             # only reload LUT if it has changed or hasn't been loaded yet
             try:
-                if os.path.basename(self.diffsigma.fname) != LUT_fname:
+                if LUT_fname == getattr(self, "_LUT_not_found", None):
+                    self.diffsigma = self._diffsigma
+                elif os.path.basename(self.diffsigma.fname) != LUT_fname:
                     self._loadLUT(LUT_fname)
             except AttributeError:
                 self._loadLUT(LUT_fname)
@@ -1534,7 +1537,9 @@ class PionDecay(BaseProton):
 
         specpp = []
         for Eg in Egamma:
-            if self.useLUT and not self.diffsigma.covers(Ep.value, Eg.value):
+            if isinstance(
+                self.diffsigma, LookupTable
+            ) and not self.diffsigma.covers(Ep.value, Eg.value):
                 diffsigma = self._diffsigma(Ep.value, Eg.value) * u.Unit("cm2/GeV")
             else:
                 diffsigma = self.diffsigma(Ep.value, Eg.value) * u.Unit("cm2/GeV")
-- 
2.43.0


From 8edce1cd05a7e864c60d7c11fffe2d9807cd01c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 09/59] fix: electron-electron bremsstrahlung far below the
 electron rest energy

The terms of Eq. A3 of Baring et al. (1999) cancel to roundoff for photon
energies below about 0.1 eV, which resulted in negative or erratic fluxes.
---
 src/naima/radiative.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index d3ced4d..09b0c31 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -870,6 +870,8 @@ class Bremsstrahlung(BaseElectron):
         s1_3 = -2 * (1 - 2 * eps) * np.log(1 - 2 * eps)
         s1_4 = 1 / (4 * eps**3) - 1 / (2 * eps**2) + 3 / eps - 2 + 4 * eps
         s1 = s1_1 + s1_2 + s1_3 * s1_4
+        # use the series expansion where the terms above cancel to roundoff
+        s1 = np.where(eps < 1e-4, s1_1 + 28.0 / 3.0 - 70.0 / 3.0 * eps, s1)
 
         s2_1 = 2 / eps
         s2_2 = (4 - 1 / eps + 1 / (4 * eps**2)) * np.log(2 * gam)
-- 
2.43.0


From f5f639ccc86450fd4fa61b1a128a84ebeef8a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 10/59] fix: no overflow in the log-log integration between
 very small and large values

The ratio of the two values of an interval can exceed the largest float, and
inf was returned for an integral that is finite.
---
 src/naima/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index e12bbf1..22b7a7a 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -339,8 +339,8 @@ def trapz_loglog(y, x, axis=-1, intervals=False):
         # normal powerlaw integration
         trapzs = np.where(
             np.abs(b + 1.0) > 1e-10,
-            (y[slice1] * (x[slice2] * (x[slice2] / x[slice1]) ** b - x[slice1]))
-            / (b + 1),
+            # y2 = y1 * (x2 / x1) ** b, which might overflow
+            (y[slice2] * x[slice2] - y[slice1] * x[slice1]) / (b + 1),
             x[slice1] * y[slice1] * np.log(x[slice2] / x[slice1]),
         )
 
-- 
2.43.0


From e4ee23e8792836f94314935237b1d1b5e3f78509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 11/59] fix: set_We and set_Wp do not modify the amplitude
 object of the user

The amplitude was scaled in place, which changed the Quantity the user holds
and any other model built from it.
---
 src/naima/radiative.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 09b0c31..1f4b30a 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -221,7 +221,11 @@ class BaseElectron(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (We / oldWe).decompose()
+                # not in place, to leave the object passed by the user as it was
+                self.particle_distribution.amplitude = (
+                    self.particle_distribution.amplitude
+                    * (We / oldWe).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
@@ -1090,7 +1094,11 @@ class BaseProton(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (Wp / oldWp).decompose()
+                # not in place, to leave the object passed by the user as it was
+                self.particle_distribution.amplitude = (
+                    self.particle_distribution.amplitude
+                    * (Wp / oldWp).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
-- 
2.43.0


From d3889f1a8839f1a60b4822e14e4c5a19e6b12517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 12/59] fix: electron-electron bremsstrahlung at half the
 electron rest energy

Eq. A3 of Baring et al. (1999) has a removable singularity there, where the
flux was NaN.
---
 src/naima/radiative.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 1f4b30a..f5bf745 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -867,11 +867,13 @@ class Bremsstrahlung(BaseElectron):
         Eq. A3 of Baring et al. (1999)
         Return in units of cm2 / mec2
         """
+        from scipy.special import xlogy
+
         s0 = r0**2 * alpha / (3 * eps) / mec2_unit
 
         s1_1 = 16 * (1 - eps + eps**2) * np.log(gam / eps)
         s1_2 = -1 / eps**2 + 3 / eps - 4 - 4 * eps - 8 * eps**2
-        s1_3 = -2 * (1 - 2 * eps) * np.log(1 - 2 * eps)
+        s1_3 = -2 * xlogy(1 - 2 * eps, 1 - 2 * eps)  # zero for eps = 0.5
         s1_4 = 1 / (4 * eps**3) - 1 / (2 * eps**2) + 3 / eps - 2 + 4 * eps
         s1 = s1_1 + s1_2 + s1_3 * s1_4
         # use the series expansion where the terms above cancel to roundoff
-- 
2.43.0


From 3cc2dd5bd2877e274dabcdf30a186e2e8e90b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 13/59] fix: TableModel does not lose its first or last energy
 to unit conversion

An energy equal to the first or last tabulated one but given in another unit
could be rounded to outside the table, where the model is zero.
---
 src/naima/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/naima/models.py b/src/naima/models.py
index aed3e17..933f7a6 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -465,7 +465,11 @@ class TableModel:
 
     def __call__(self, e):
         e = _validate_ene(e)
-        interpy = np.power(10, self._interplogy(np.log10(e.to("eV").value)))
+        loge = np.log10(e.to("eV").value)
+        # do not lose the first and last energies to rounding in unit conversion
+        for edge in self._interplogy.x[[0, -1]]:
+            loge = np.where(np.abs(loge - edge) < 1e-12, edge, loge)
+        interpy = np.power(10, self._interplogy(loge))
         return self.amplitude * interpy * self.unit
 
 
-- 
2.43.0


From 5d82fa56e92c61f5e366b5734a8f8a7064c15127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 14/59] fix: EBL opacity above 100 TeV is that at the end of
 the table

It was log10(6000) for all redshifts, which absorbed sources at redshift zero
and let photons of distant sources through.
---
 src/naima/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/models.py b/src/naima/models.py
index 933f7a6..725fce9 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -550,7 +550,8 @@ class EblAbsorptionModel(TableModel):
             if e[i].to("GeV").value < 1.0:
                 taus[i] = 0.0
             elif e[i].to("TeV").value > 100.0:
-                taus[i] = np.log10(6000.0)
+                # opacity at the end of the table
+                taus[i] = np.log10(self(self._energy[-1]))
             else:
                 taus[i] = np.log10(self(e[i]))
         return np.exp(-taus)
-- 
2.43.0


From 4f70bd6a0fa77230cab5cc36939646cb79cbebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 15/59] fix: EBL transmission does not exceed one

---
 src/naima/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/models.py b/src/naima/models.py
index 725fce9..06b3195 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -553,5 +553,6 @@ class EblAbsorptionModel(TableModel):
                 # opacity at the end of the table
                 taus[i] = np.log10(self(self._energy[-1]))
             else:
-                taus[i] = np.log10(self(e[i]))
+                # the interpolation between small opacities may be negative
+                taus[i] = max(0.0, np.log10(self(e[i])))
         return np.exp(-taus)
-- 
2.43.0


From d6c47c4bf86944283665620cec635e9fc6f9d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 16/59] fix: EBL transmission for a scalar energy

---
 src/naima/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/models.py b/src/naima/models.py
index 06b3195..3a7564a 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -545,6 +545,8 @@ class EblAbsorptionModel(TableModel):
 
     def transmission(self, e):
         e = _validate_ene(e)
+        shape = e.shape
+        e = e.flatten()
         taus = np.zeros(len(e))
         for i in range(0, len(e)):
             if e[i].to("GeV").value < 1.0:
@@ -555,4 +557,4 @@ class EblAbsorptionModel(TableModel):
             else:
                 # the interpolation between small opacities may be negative
                 taus[i] = max(0.0, np.log10(self(e[i])))
-        return np.exp(-taus)
+        return np.exp(-taus).reshape(shape)
-- 
2.43.0


From 629994c7213694e5ef36b451d7a2f8c2e29c9970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 17/59] fix: negative tabulated seed photon fields are rejected

---
 src/naima/extern/validator.py | 4 ++++
 src/naima/utils.py            | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/naima/extern/validator.py b/src/naima/extern/validator.py
index e6f819f..1b7b307 100644
--- a/src/naima/extern/validator.py
+++ b/src/naima/extern/validator.py
@@ -82,4 +82,8 @@ def validate_array(name, value, domain=None, ndim=1, shape=None, physical_type=N
                 )
             )
 
+    # Check that all the values are in the domain
+    if domain == "positive" and np.any(value < 0.0):
+        raise ValueError("{0} should be positive".format(name))
+
     return value
diff --git a/src/naima/utils.py b/src/naima/utils.py
index 22b7a7a..ac3350d 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -20,7 +20,7 @@ __all__ = [
 # Input validation tools
 
 
-def validate_column(data_table, key, pt, domain="positive"):
+def validate_column(data_table, key, pt, domain=None):
     try:
         column = data_table[key]
         array = validate_array(
-- 
2.43.0


From 585d8343745ce32f6c361c029912ae7dbf8a5604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 18/59] fix: tabulated seed photon fields need one density per
 energy

---
 src/naima/radiative.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index f5bf745..e0c9c63 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -538,6 +538,7 @@ class InverseCompton(BaseElectron):
                             "{0}-density".format(name),
                             uu,
                             domain="positive",
+                            shape=seed["energy"].shape,
                             physical_type="differential number density",
                         )
             else:
-- 
2.43.0


From f6596c0f0ba59c5a74876f3ef2ec0cb9dae349d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 19/59] fix: energy bin edges of tables that are not sorted by
 energy

---
 src/naima/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index ac3350d..9dcd96c 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -357,13 +357,18 @@ def trapz_loglog(y, x, axis=-1, intervals=False):
 
 def _generate_energy_edges_single(ene):
     """Generate energy edges for single group"""
+    # the neighbours of an energy are those in energy order
+    order = np.argsort(ene)
+    ene = ene[order]
     midene = np.sqrt((ene[1:] * ene[:-1]))
     elo, ehi = np.zeros(len(ene)) * ene.unit, np.zeros(len(ene)) * ene.unit
     elo[1:] = ene[1:] - midene
     ehi[:-1] = midene - ene[:-1]
     elo[0] = ene[0] * (1 - ene[0] / (ene[0] + ehi[0]))
     ehi[-1] = elo[-1]
-    return u.Quantity([elo, ehi])
+    edges = np.zeros((2, len(ene))) * ene.unit
+    edges[:, order] = u.Quantity([elo, ehi])
+    return edges
 
 
 def generate_energy_edges(ene, groups=None):
-- 
2.43.0


From a6eb2299e94a4c66be2c18c0cd45352776e55e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 20/59] fix: keep the confidence level of tables that have
 already been validated

---
 src/naima/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 9dcd96c..e539281 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -202,6 +202,11 @@ def _validate_single_data_table(data_table, group=0):
             CL = validate_scalar("cl", data_table.meta["keywords"]["cl"]["value"])
             data["cl"] = [CL] * len(data["energy"])
 
+    if not HAS_CL and "cl" in data_table.colnames:
+        # the table has already been validated
+        HAS_CL = True
+        data["cl"] = data_table["cl"]
+
     if not HAS_CL:
         data["cl"] = [0.9] * len(data["energy"])
         if np.sum(data["ul"]) > 0:
-- 
2.43.0


From e4386de7100fd9cc469e1fc49be72db4001412b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 21/59] fix: each violated upper limit contributes its own
 confidence level

---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index c397c6a..ff75678 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -88,8 +88,8 @@ def lnprobmodel(model, data):
 
     if np.sum(ul) > 0:
         # deal with upper limits at CL set by data['cl']
-        violated_uls = np.sum(model[ul] > data["flux"][ul])
-        totallogprob += violated_uls * np.log(1.0 - data["cl"][violated_uls])
+        violated_uls = model[ul] > data["flux"][ul]
+        totallogprob += np.sum(np.log(1.0 - data["cl"][ul][violated_uls]))
 
     return totallogprob
 
-- 
2.43.0


From d31ea618e2480e37dd9d5754fa8e07228fe0d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 22/59] fix: normal_prior is the logarithm of a normal density
 of width sigma

---
 src/naima/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index ff75678..6599683 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -41,7 +41,7 @@ def uniform_prior(value, umin, umax):
 
 def normal_prior(value, mean, sigma):
     """Normal prior distribution."""
-    return -0.5 * (2 * np.pi * sigma) - (value - mean) ** 2 / (2.0 * sigma)
+    return -0.5 * np.log(2 * np.pi * sigma**2) - (value - mean) ** 2 / (2.0 * sigma**2)
 
 
 def log_uniform_prior(value, umin=0, umax=None):
-- 
2.43.0


From 9c09518a4ee56df4cd64dab8d712b9d28b0f24ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 23/59] fix: log_uniform_prior is the logarithm of the
 log-uniform density

---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 6599683..4449bf3 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -49,11 +49,11 @@ def log_uniform_prior(value, umin=0, umax=None):
     if value > 0 and value >= umin:
         if umax is not None:
             if value <= umax:
-                return 1 / value
+                return -np.log(value)
             else:
                 return -np.inf
         else:
-            return 1 / value
+            return -np.log(value)
     else:
         return -np.inf
 
-- 
2.43.0


From 3f39186327ad0025098f37ec80984f5713ad0f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 24/59] fix: get_sampler does not modify the parameter vector
 and labels of the user

---
 src/naima/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 4449bf3..91e54ca 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -341,12 +341,17 @@ def get_sampler(
     if model is None:
         raise TypeError("Model function is missing!")
 
+    # Do not modify the objects passed by the user
+    p0 = np.array(p0, dtype=float)
+
     # Add parameter labels if not provided or too short
     if labels is None:
         # First is normalization
         labels = ["norm"] + ["par{0}".format(i) for i in range(1, len(p0))]
     elif len(labels) < len(p0):
-        labels += ["par{0}".format(i) for i in range(len(labels), len(p0))]
+        labels = list(labels) + [
+            "par{0}".format(i) for i in range(len(labels), len(p0))
+        ]
 
     # Check that the model returns fluxes in same physical type as data
     modelout = model(p0, data)
-- 
2.43.0


From 7858cd5fe9693e745fe99e06caaa78168f4e1f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 25/59] fix: get_sampler rejects models in luminosity for data
 in flux and vice versa

---
 src/naima/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 91e54ca..377bae8 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -367,8 +367,10 @@ def get_sampler(
     try:
         # If both can be converted to differential flux, they can be compared
         # Otherwise, sed_conversion will raise a u.UnitsError
-        sed_conversion(data["energy"], spec.unit, False)
-        sed_conversion(data["energy"], data["flux"].unit, False)
+        model_unit, _ = sed_conversion(data["energy"], spec.unit, False)
+        data_unit, _ = sed_conversion(data["energy"], data["flux"].unit, False)
+        # fluxes and luminosities cannot be compared
+        model_unit.to(data_unit)
     except u.UnitsError:
         raise u.UnitsError(
             "The physical type of the model and data units are not compatible,"
-- 
2.43.0


From 74ef354712af3aca550669472369653d8fbadfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 26/59] fix: PionDecayKelner06 rejects target densities in
 wrong units

---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index e0c9c63..1ecf330 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1791,7 +1791,7 @@ class PionDecayKelner06(BaseRadiative):
                 else:
                     self.specpp[i] = self._calc_specpp_loE(Egamma)
 
-        density_factor = (self.nh / (1 * u.Unit("1/cm3"))).decompose().value
+        density_factor = self.nh.to("1/cm3").value
 
         return density_factor * self.specpp.to("1/(s eV)")
 
-- 
2.43.0


From b92397c9f1a19603b4d3a8b0d0e69e9b02074846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 27/59] fix: estimate_B rejects a luminosity and a flux table

---
 src/naima/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index e539281..f24928a 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -545,7 +545,7 @@ def estimate_B(xray_table, vhe_table, photon_energy_density=0.261 * u.eV / u.cm*
 
     uph = (photon_energy_density.to("erg/cm3")).value
 
-    B0 = (np.sqrt((xray_lum / vhe_lum).decompose().value * 8 * np.pi * uph) * u.G).to(
+    B0 = (np.sqrt((xray_lum / vhe_lum).to("").value * 8 * np.pi * uph) * u.G).to(
         "uG"
     )
 
-- 
2.43.0


From a4d9a2787ee00f61a2e515ecd11a1ee542dfa4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 28/59] fix: model outputs of equal length keep their units in
 the sampler

---
 src/naima/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 377bae8..d80abef 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -105,7 +105,7 @@ def lnprob(pars, data, modelfunc, priorfunc):
     # Save blobs or save model if no blobs given
     if isinstance(modelout, Iterable) and not isinstance(modelout, np.ndarray):
         model = modelout[0]
-        blob = modelout
+        blob = modelout if len(modelout) > 1 else (model, np.nan)
     else:
         model = modelout
         # Avoid squeezing of the model output in order to retain units by
@@ -118,7 +118,13 @@ def lnprob(pars, data, modelfunc, priorfunc):
     else:
         total_lnprob = lnprob_priors
 
-    return (total_lnprob, *blob)
+    # Hand over the blobs as an object array, outputs of equal length would
+    # otherwise be merged into a single array and lose their units
+    blobs = np.empty(len(blob), dtype=object)
+    for i, item in enumerate(blob):
+        blobs[i] = item
+
+    return total_lnprob, blobs
 
 
 # Sampler funcs
-- 
2.43.0


From fa2b9cad85207b7512453f7c745497ab49bff1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 29/59] fix: release the pool of failed runs and allow
 continuing parallel runs

---
 src/naima/core.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index d80abef..2445858 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -166,6 +166,15 @@ def _run_mcmc(sampler, pos, nrun):
     return sampler, state
 
 
+def _release_pool(sampler):
+    """Clean up the multiprocessing pool"""
+    if hasattr(sampler, "_naima_pool") and sampler._naima_pool is not None:
+        sampler._naima_pool.close()
+        sampler._naima_pool.join()
+        sampler._naima_pool = None
+        sampler.pool = None
+
+
 def _prefit(p0, data, model, prior):
     P0_IS_ML = False
     from .extern.minimize import minimize
@@ -469,6 +478,7 @@ def get_sampler(
         blobs_dtype=np.dtype(object),
     )
     sampler._naima_pool = pool
+    sampler._naima_threads = threads
 
     # Add data and parameters properties to sampler
     sampler.data_table = data_table
@@ -495,7 +505,11 @@ def get_sampler(
 
     if nburn > 0:
         print("Burning in the {0} walkers with {1} steps...".format(nwalkers, nburn))
-        sampler, state = _run_mcmc(sampler, p0, nburn)
+        try:
+            sampler, state = _run_mcmc(sampler, p0, nburn)
+        except BaseException:
+            _release_pool(sampler)
+            raise
     else:
         state = emcee.State(p0)
 
@@ -540,12 +554,14 @@ def run_sampler(nrun=100, sampler=None, pos=None, **kwargs):
 
     print("\nWalker burn in finished, running {0} steps...".format(nrun))
     sampler.reset()
-    sampler, pos = _run_mcmc(sampler, pos, nrun)
 
-    # Clean up the multiprocessing pool
-    if hasattr(sampler, "_naima_pool") and sampler._naima_pool is not None:
-        sampler._naima_pool.close()
-        sampler._naima_pool.join()
-        sampler._naima_pool = None
+    # Start a new pool if it was released at the end of a previous run
+    if sampler.pool is None and getattr(sampler, "_naima_threads", 1) > 1:
+        sampler._naima_pool = sampler.pool = Pool(sampler._naima_threads)
+
+    try:
+        sampler, pos = _run_mcmc(sampler, pos, nrun)
+    finally:
+        _release_pool(sampler)
 
     return sampler, pos
-- 
2.43.0


From 5c6be4310ef7fb82d621d4d29537be8ddd93174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 30/59] fix: guess of logarithmic normalizations with
 capitalized labels

---
 src/naima/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 2445858..29276b5 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -422,9 +422,10 @@ def get_sampler(
                 data["energy"],
             )
             ratio = dataFlux / currFlux
-            if labels[idxs[0]].startswith("log("):
+            label = labels[idxs[0]].lower()
+            if label.startswith("log("):
                 p0[idxs[0]] += np.log(ratio)
-            elif labels[idxs[0]].startswith("log10("):
+            elif label.startswith("log10("):
                 p0[idxs[0]] += np.log10(ratio)
             else:
                 p0[idxs[0]] *= ratio
-- 
2.43.0


From 7389fcb63c2960463369a5f6ebaed819a0b31aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 31/59] fix: save_run and read_run keep every model output with
 its units

---
 src/naima/analysis.py | 113 +++++++++++++++++++-----------------------
 1 file changed, 51 insertions(+), 62 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 70d500b..dd56b7f 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -408,26 +408,12 @@ def save_run(filename, sampler, compression=True, clobber=False):
         # blobs
         blob = sampler.get_blobs()[-1][0]
         for idx, item in enumerate(blob):
-            if isinstance(item, u.Quantity):
-                # scalar or array quantity
-                units = [item.unit.to_string()]
-            elif isinstance(item, float):
-                units = [""]
-            elif (isinstance(item, tuple) or isinstance(item, list)) and np.all(
-                [isinstance(x, np.ndarray) for x in item]
-            ):
-                units = []
-                for x in item:
-                    if isinstance(x, u.Quantity):
-                        units.append(x.unit.to_string())
-                    else:
-                        units.append("")
-            else:
-                log.warning(
-                    "blob number {0} has unknown format and cannot be saved "
-                    "in HDF5 file"
-                )
-                continue
+            # pairs or longer lists of arrays, or a scalar or an array
+            is_list = isinstance(item, (tuple, list))
+            parts = list(item) if is_list else [item]
+            units = [
+                x.unit.to_string() if isinstance(x, u.Quantity) else "" for x in parts
+            ]
 
             # traverse blobs list. This will probably be slow and there should
             # be a better way
@@ -435,12 +421,29 @@ def save_run(filename, sampler, compression=True, clobber=False):
             for step in sampler.get_blobs():
                 for walkerblob in step:
                     blob.append(walkerblob[idx])
-            blob = u.Quantity(blob).value
+
+            try:
+                if is_list:
+                    blob = np.stack(
+                        [
+                            u.Quantity([b[j] for b in blob], unit=unit).value
+                            for j, unit in enumerate(units)
+                        ],
+                        axis=1,
+                    )
+                else:
+                    blob = u.Quantity(blob, unit=units[0]).value
+            except (TypeError, ValueError):
+                log.warning(
+                    "blob number {0} has unknown format and cannot be saved "
+                    "in HDF5 file".format(idx)
+                )
+                continue
 
             blobdataset = group.create_dataset(
                 "blob{0}".format(idx), data=blob, compression=compression
             )
-            if len(units) > 1:
+            if is_list:
                 for j, unit in enumerate(units):
                     blobdataset.attrs["unit{0}".format(j)] = unit
             else:
@@ -533,56 +536,42 @@ def read_run(filename, modelfn=None):
     result.log_prob = np.array(f["mcmc/log_prob"])
 
     # blobs
-    result_blobs = []
-    nsteps, nwalkers, nblobs = result.chain.shape
-    blobs = []
-    blobrank = []
-    for i in range(100):
+    nsteps, nwalkers, npars = result.chain.shape
+    blobs = {}
+    for name, ds in f["mcmc"].items():
+        if not name.startswith("blob"):
+            continue
         # first read each of the blobs and convert to Quantities
-        try:
-            ds = f["mcmc/blob{0}".format(i)]
-            rank = np.ndim(ds[0])
-            blobrank.append(rank)
-            if rank <= 1:
-                blobs.append(u.Quantity(ds[()], unit=ds.attrs["unit"]))
-            else:
-                blob = []
-                for j in range(np.ndim(ds[0])):
-                    blob.append(
-                        u.Quantity(ds[:, j, :], unit=ds.attrs["unit{0}".format(j)])
-                    )
-                blobs.append(blob)
-        except KeyError:
-            break
-
-    # Now organize in an awful list of lists of arrays
-    for step in range(nsteps):
-        steplist = []
-        for walker in range(nwalkers):
-            n = step * nwalkers + walker
-            walkerblob = []
-            for j in range(len(blobs)):
-                if blobrank[j] <= 1:
-                    walkerblob.append(blobs[j][n])
-                else:
-                    blob = []
-                    for k in range(blobrank[j]):
-                        blob.append(blobs[j][k][n])
-                    walkerblob.append(blob)
-            steplist.append(walkerblob)
-        result_blobs.append(steplist)
-
-    result._blobs = np.array(result_blobs, dtype=np.dtype("object"))
+        if "unit" in ds.attrs:
+            blob = u.Quantity(ds[()], unit=ds.attrs["unit"])
+        else:
+            # join the items of each sample
+            units = [ds.attrs["unit{0}".format(j)] for j in range(ds.shape[1])]
+            blob = [
+                [u.Quantity(x, unit=unit) for x, unit in zip(item, units)]
+                for item in ds[()]
+            ]
+        blobs[int(name[len("blob") :])] = blob
+
+    # Now organize in an array of lists of arrays, leaving None for the blobs
+    # that could not be saved
+    nblobs = max(blobs, default=-1) + 1
+    result._blobs = np.empty((nsteps, nwalkers, nblobs), dtype=np.dtype("object"))
+    for idx, blob in blobs.items():
+        for n, item in enumerate(blob):
+            result._blobs[n // nwalkers, n % nwalkers, idx] = item
 
     # run info
     result.run_info = dict(f["mcmc"].attrs)
     result.acceptance_fraction = f["mcmc"].attrs["acceptance_fraction"]
     # labels
     result.labels = []
-    for i in range(nblobs):
+    for i in range(npars):
         result.labels.append(f["mcmc"].attrs["label{0}".format(i)])
 
     # data
     result.data = read_table_hdf5(f["mcmc"], "data")
 
+    f.close()
+
     return result
-- 
2.43.0


From 758602e19589b90d5739efa1766798c9a5104656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 32/59] fix: plot_fit of a run read from file uses the stored
 model outputs

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 72c610d..627b33e 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -840,7 +840,7 @@ def plot_fit(
 
     data = sampler.data
 
-    if e_range is None and not hasattr(sampler, "blobs"):
+    if e_range is None and sampler.get_blobs() is None:
         e_range = data["energy"][[0, -1]] * np.array((1.0 / 3.0, 3.0))
 
     if plotdata is None and len(model_ML[0]) == len(data["energy"]):
-- 
2.43.0


From 6997824a7bb709176abb38a2b2e9ca9c9e4f864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:57 +0000
Subject: [PATCH 33/59] fix: save_results_table with last_step uses the samples
 of the last step

---
 src/naima/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index dd56b7f..03fccc7 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -239,7 +239,7 @@ def save_results_table(
     labels = sampler.labels
 
     if last_step:
-        dists = sampler.get_chain()[:, -1, :]
+        dists = sampler.get_chain()[-1]
     else:
         dists = sampler.get_chain(flat=True)
 
-- 
2.43.0


From 7ada8cf8cf6df6ce3aae07d900fc6a4ecf6a4c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 34/59] fix: linear form of logarithmic parameters with text
 before log in their label

---
 src/naima/analysis.py | 5 ++---
 src/naima/plot.py     | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 03fccc7..7be23f0 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -287,10 +287,9 @@ def save_results_table(
 
         if convert_log and ("log10(" in label or "log(" in label):
             nlabel = label.split("(")[-1].split(")")[0]
-            ltype = label.split("(")[0]
-            if ltype == "log10":
+            if "log10(" in label:
                 new_dist = 10**dist
-            elif ltype == "log":
+            else:
                 new_dist = np.exp(dist)
 
             quantiles = dict(zip(quant, np.percentile(new_dist, quant)))
diff --git a/src/naima/plot.py b/src/naima/plot.py
index 627b33e..3bb9efd 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -243,10 +243,9 @@ def _plot_chain_func(sampler, p, last_step=False):
 
     if "log10(" in label or "log(" in label:
         nlabel = label.split("(")[-1].split(")")[0]
-        ltype = label.split("(")[0]
-        if ltype == "log10":
+        if "log10(" in label:
             new_dist = 10**dist
-        elif ltype == "log":
+        else:
             new_dist = np.exp(dist)
 
         quant = [16, 50, 84]
-- 
2.43.0


From ad815cfb2b78ebe3701bb45da93fdcdce9f2cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 35/59] fix: save_results_table with scalar outputs in several
 units or as text

---
 src/naima/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 7be23f0..960e02b 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -309,7 +309,7 @@ def save_results_table(
                 if blob0.size == 1:
                     IS_SCALAR = True
                     unit = blob0.unit
-            elif np.isscalar(blob0):
+            elif np.isscalar(blob0) and not isinstance(blob0, str):
                 IS_SCALAR = True
                 unit = None
 
@@ -322,7 +322,7 @@ def save_results_table(
                         for walkerblob in step:
                             blobl.append(walkerblob[idx])
                 if unit:
-                    dist = np.array([b.value for b in blobl])
+                    dist = u.Quantity(blobl, unit).value
                     metadata["blob{0}_unit".format(idx)] = unit.to_string()
                 else:
                     dist = np.array(blobl)
-- 
2.43.0


From e0290778ebcca07edb1c032518418534493fbd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 36/59] fix: plot_CI leaves the confs list of the caller as it
 is

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 3bb9efd..c93c0a3 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -558,7 +558,7 @@ def plot_CI(
         Whether to only use the positions in the final step of the run (True,
         default) or the whole chain (False).
     """
-    confs.sort(reverse=True)
+    confs = sorted(confs, reverse=True)
 
     modelx, CI = _calc_CI(
         sampler,
-- 
2.43.0


From 3de874d76758d41f2bad46625898601c166948d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 37/59] fix: line width of upper limits no longer leaks into
 later plots

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index c93c0a3..22c728f 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1079,7 +1079,7 @@ def _plot_data_to_ax(
 
         if np.any(ul):
             if "elinewidth" in errorbar_opts:
-                ulim_opts["elinewidth"] = errorbar_opts["elinewidth"]
+                ulim_opts = dict(ulim_opts, elinewidth=errorbar_opts["elinewidth"])
 
             _plot_ulims(
                 ax1,
-- 
2.43.0


From bb28bc46014e8bcb71f8a3ad5ab54b9ed244bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 38/59] fix: plot_fit draws on the given figure when it is not
 the current one

---
 src/naima/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 22c728f..aed4b3e 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -871,8 +871,8 @@ def plot_fit(
         f = figure
 
     if plotdata and plotresiduals:
-        ax1 = plt.subplot2grid((4, 1), (0, 0), rowspan=3)
-        ax2 = plt.subplot2grid((4, 1), (3, 0), sharex=ax1)
+        ax1 = plt.subplot2grid((4, 1), (0, 0), rowspan=3, fig=f)
+        ax2 = plt.subplot2grid((4, 1), (3, 0), sharex=ax1, fig=f)
         for subp in [ax1, ax2]:
             f.add_subplot(subp)
     else:
-- 
2.43.0


From c1a873219d70ccbd1ee64abaaa2a938a77d2176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 39/59] fix: plot_corner restores the line width when it fails

---
 src/naima/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index aed4b3e..c4fbcd0 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1432,7 +1432,7 @@ def plot_corner(sampler, show_ML=True, **kwargs):
     except ImportError:
         log.warning("The corner package is not installed; corner plot not available")
         f = None
-
-    plt.rcParams["lines.linewidth"] = oldlw
+    finally:
+        plt.rcParams["lines.linewidth"] = oldlw
 
     return f
-- 
2.43.0


From 047ee4fd5cf22d9bff9b91886ab14c94d801745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 40/59] fix: save_diagnostic_plots leaves the matplotlib
 configuration as it was

---
 src/naima/analysis.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 960e02b..bd2bccf 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -1,5 +1,6 @@
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
 import os
+from functools import wraps
 from pathlib import Path
 
 import astropy.units as u
@@ -26,6 +27,20 @@ __all__ = [
 ]
 
 
+def _keep_rcparams(func):
+    """Leave the matplotlib configuration as it was when func returns or fails"""
+
+    @wraps(func)
+    def wrapper(*args, **kwargs):
+        from matplotlib import pyplot as plt
+
+        with plt.rc_context():
+            return func(*args, **kwargs)
+
+    return wrapper
+
+
+@_keep_rcparams
 def save_diagnostic_plots(
     outname,
     sampler,
@@ -75,7 +90,6 @@ def save_diagnostic_plots(
     from .plot import plot_blob, plot_chain, plot_corner
 
     # This function should never be interactive
-    old_interactive = plt.rcParams["interactive"]
     plt.rcParams["interactive"] = False
 
     if pdf:
@@ -158,9 +172,6 @@ def save_diagnostic_plots(
     if pdf:
         outpdf.close()
 
-    # set interactive back to original
-    plt.rcParams["interactive"] = old_interactive
-
 
 def save_results_table(
     outname,
-- 
2.43.0


From 0328a28bc98f146edb13369bcff2cfc0a9791f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 41/59] fix: plot data whose errors all reach zero

---
 src/naima/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index c4fbcd0..dc02cf3 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1105,9 +1105,10 @@ def _plot_data_to_ax(
         elo = (data_all["flux"][notul] * sedf[notul]).to(f_unit).value - (
             data_all["flux_error_lo"][notul] * sedf[notul]
         ).to(f_unit).value
-        gooderr = np.where(data_all["flux_error_lo"][notul] < data_all["flux"][notul])
-        ymin = 10 ** np.floor(np.log10(np.min(elo[gooderr])))
-        ax1.set_ylim(bottom=ymin)
+        gooderr = data_all["flux_error_lo"][notul] < data_all["flux"][notul]
+        if np.any(gooderr):
+            ymin = 10 ** np.floor(np.log10(np.min(elo[gooderr])))
+            ax1.set_ylim(bottom=ymin)
 
     if ylabel is None:
         if sed:
-- 
2.43.0


From eddfee5b2e897a1ae7c1df04d933fd73d5005098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 42/59] fix: plot_data keeps the energy unit of the figure it
 draws on

---
 src/naima/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index dc02cf3..2a2c566 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1269,7 +1269,8 @@ def plot_data(
 
     # try to get units from previous plot in figure
     try:
-        old_e_unit = u.Unit(ax1.get_xlabel().split("[")[-1].split("]")[0])
+        old_e_unit = ax1.get_xlabel().split("[")[-1].split("]")[0]
+        old_e_unit = u.Unit(old_e_unit.replace("$\\mathrm{", "").replace("}$", ""))
     except ValueError:
         old_e_unit = u.Unit("")
 
-- 
2.43.0


From 803fac8e850e82d31d8435cc94632e1cc60bcf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 43/59] fix: plot data with negative flux

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 2a2c566..7876b8d 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1051,7 +1051,7 @@ def _plot_data_to_ax(
         # Hack to show y errors compatible with 0 in loglog plot
         yerr_lo = data["flux_error_lo"][notul]
         y = data["flux"][notul].to(yerr_lo.unit)
-        bad_err = np.where((y - yerr_lo) <= 0.0)
+        bad_err = np.where(((y - yerr_lo) <= 0.0) & (y > 0.0))
         yerr_lo[bad_err] = y[bad_err] * (1.0 - 1e-7)
         yerr = u.Quantity((yerr_lo, data["flux_error_hi"][notul]))
         xerr = u.Quantity((data["energy_error_lo"], data["energy_error_hi"]))
-- 
2.43.0


From 50cd82e5751ff444191e49d82b7384e060afe6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 44/59] fix: residuals of models on energies of their own at
 low energies

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 7876b8d..2aebac0 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1144,7 +1144,7 @@ def _plot_residuals_to_ax(
 
     interp = False
     if data_all["energy"].size != MLene.size or not np.allclose(
-        data_all["energy"].value, MLene.value
+        data_all["energy"].to(e_unit).value, MLene.value, atol=0
     ):
         interp = True
         from scipy.interpolate import interp1d
-- 
2.43.0


From e62a8827c852933c248ca5fb8b3f91f25741f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 45/59] fix: interactive fitter slider ranges always contain
 the initial value

Negative values without a known label, and indices outside 0 to 5, gave
a range (possibly inverted) in which the slider showed another value
than the parameter held.
---
 src/naima/model_fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index 6f96389..e072b15 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -200,6 +200,8 @@ class InteractiveModelFitter:
                 # norm without log, it will not be pretty because sliders are
                 # only linear
                 pmin, pmax = valinit / 100, valinit * 100
+            # the slider must be able to hold the initial value
+            pmin, pmax = min(pmin, pmax, valinit), max(pmin, pmax, valinit)
 
             slider = Slider(
                 parax, label, pmin, pmax, valinit=valinit, valfmt="%.4g", **slider_props
-- 
2.43.0


From d1f31df2ecf532103ed54b6917ad4e709c8bd440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 46/59] fix: interactive fitter no longer extends the caller's
 labels

---
 src/naima/model_fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index e072b15..36805c6 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -74,7 +74,9 @@ class InteractiveModelFitter:
         if labels is None:
             labels = ["par{0}".format(i) for i in range(npars)]
         elif len(labels) < npars:
-            labels += ["par{0}".format(i) for i in range(len(labels), npars)]
+            labels = list(labels) + [
+                "par{0}".format(i) for i in range(len(labels), npars)
+            ]
 
         self.hasdata = data is not None
         self.data = None
-- 
2.43.0


From 8b340b8cbe66b919f9bb9b37e686143b4b7d0dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 47/59] fix: show the parameters left by an interactive fit
 that did not converge

_prefit returns the position reached when the maximum number of
evaluations is exceeded; sliders, curve and likelihood stayed at the old
values while the fitter held and returned the new ones.
---
 src/naima/model_fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index 36805c6..bc481f5 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -264,10 +264,10 @@ class InteractiveModelFitter:
         self.pars, P0_IS_ML = _prefit(self.pars, self.data, self.modelfn, None)
         autoupdate = self.autoupdate
         self.autoupdate = False
-        if P0_IS_ML:
-            for slider, val in zip(self.parsliders, self.pars):
-                slider.set_val(val)
-            self.update("after_fit")
+        # pars is the result of the fit also when it did not converge
+        for slider, val in zip(self.parsliders, self.pars):
+            slider.set_val(val)
+        self.update("after_fit")
         self.autoupdate = autoupdate
         self.P0_IS_ML = P0_IS_ML
 
-- 
2.43.0


From 6fb537d0184ee1b05fc79515df772b792c4b0ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 48/59] fix: restore the interactive mode of plots when the
 fitter window fails

---
 src/naima/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 29276b5..2c412a9 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -451,10 +451,12 @@ def get_sampler(
 
             iprev = plt.rcParams["interactive"]
             plt.rcParams["interactive"] = False
-            imf = InteractiveModelFitter(model, p0, data, labels=labels, sed=True)
+            try:
+                imf = InteractiveModelFitter(model, p0, data, labels=labels, sed=True)
+            finally:
+                plt.rcParams["interactive"] = iprev
             p0 = imf.pars
             P0_IS_ML = imf.P0_IS_ML
-            plt.rcParams["interactive"] = iprev
         except ImportError as e:
             log.warning(
                 "Interactive fitting is not available because"
-- 
2.43.0


From 6bda90ce5467bfb5c9b326a61f48e081e92edbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 49/59] fix: Sherpa models over bins that are not consecutive

Bins with gaps (ignored channels, several instruments) or in decreasing
order were integrated from the lower edge of each to that of the next.
---
 src/naima/sherpa_models.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/naima/sherpa_models.py b/src/naima/sherpa_models.py
index ce9f01c..efc1bbf 100644
--- a/src/naima/sherpa_models.py
+++ b/src/naima/sherpa_models.py
@@ -11,11 +11,14 @@ from .utils import trapz_loglog
 __all__ = ["InverseCompton", "Synchrotron", "PionDecay", "Bremsstrahlung"]
 
 
+def _consecutive(xlo, xhi):
+    """Whether each bin ends where the next one starts"""
+    return np.allclose(xlo[1:], xhi[:-1], rtol=1e-9, atol=0)
+
+
 def _mergex(xlo, xhi):
     """
     We are assuming that points are consecutive, so that xlo[n]=xhi[n-1]
-    This is usually valid for fits from a single spectrum, but breaks for
-    simultaneous multiwavelength fitting
     """
     N = xlo.size
     x = np.zeros(N + 1)
@@ -47,16 +50,27 @@ class SherpaModel(ArithmeticModel):
         # required
         if xhi is None:
             Eph = x * u.keV
-        else:
+        elif _consecutive(x, xhi):
             Eph = _mergex(x, xhi) * u.keV
+        else:
+            # bins with gaps or not in increasing order: each has its own edges
+            Eph = np.concatenate((x, xhi)) * u.keV
 
         model = self.flux(p, Eph)
 
         # Do a trapz integration to obtain the photons per bin
         if xhi is None:
             photons = (model * Eph).to("1/(s cm2)").value
-        else:
+        elif _consecutive(x, xhi):
             photons = trapz_loglog(model, Eph, intervals=True).to("1/(s cm2)").value
+        else:
+            photons = (
+                trapz_loglog(
+                    model.reshape(2, -1), Eph.reshape(2, -1), axis=0, intervals=True
+                )[0]
+                .to("1/(s cm2)")
+                .value
+            )
 
         if p[-1]:
             print(
-- 
2.43.0


From 9ed7bd88af288bdf12c1ff321b9cc2173095cee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 50/59] fix: guess of Sherpa models set the amplitude to nan

for a single point or bin, for data with a negative point and for models
with no flux at these energies.
---
 src/naima/sherpa_models.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/naima/sherpa_models.py b/src/naima/sherpa_models.py
index efc1bbf..5d33533 100644
--- a/src/naima/sherpa_models.py
+++ b/src/naima/sherpa_models.py
@@ -40,9 +40,12 @@ class SherpaModel(ArithmeticModel):
             xlo, xhi = args
 
         model = self.calc([p.val for p in self.pars], xlo, xhi)
-        obsflux = trapz_loglog(dep, xlo)
-        modflux = trapz_loglog(model, xlo)
-        self.ampl.set(self.ampl.val * obsflux / modflux)
+        # plain sums, which are also valid for a single point and for data with
+        # negative values
+        obsflux = np.sum(dep)
+        modflux = np.sum(model)
+        if obsflux > 0 and modflux > 0:
+            self.ampl.set(self.ampl.val * obsflux / modflux)
 
     @modelCacher1d
     def calc(self, p, x, xhi=None):
-- 
2.43.0


From 1243d02a06a441359d50f7a8f11cee03f76fc36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 51/59] fix: plotting no longer adds a group column to the data
 passed in

---
 src/naima/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 2aebac0..9fb5c67 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1033,6 +1033,7 @@ def _plot_data_to_ax(
     f_unit, sedf = sed_conversion(data_all["energy"], data_all["flux"].unit, sed)
 
     if "group" not in data_all.keys():
+        data_all = data_all.copy()
         data_all["group"] = np.zeros(len(data_all))
 
     groups = np.unique(data_all["group"])
@@ -1132,6 +1133,7 @@ def _plot_residuals_to_ax(
 ):
     """Function to compute and plot residuals in units of the uncertainty"""
     if "group" not in data_all.keys():
+        data_all = data_all.copy()
         data_all["group"] = np.zeros(len(data_all))
 
     groups = np.unique(data_all["group"])
-- 
2.43.0


From 564413b9b0de45343f1870a926cdb57683c8681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 52/59] fix: interactive fitter holds its own copy of the
 initial vector

---
 src/naima/model_fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index bc481f5..a20a52d 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -68,7 +68,7 @@ class InteractiveModelFitter:
         import matplotlib.pyplot as plt
         from matplotlib.widgets import Button, CheckButtons, Slider
 
-        self.pars = p0
+        self.pars = list(p0)
         self.P0_IS_ML = False
         npars = len(p0)
         if labels is None:
-- 
2.43.0


From 0f2449247a68faf5d06981f51410d7d00a62202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 53/59] fix: save_diagnostic_plots no longer extends the
 caller's blob_labels

---
 src/naima/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index bd2bccf..e8c9f90 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -147,7 +147,9 @@ def save_diagnostic_plots(
     elif len(blob_labels) < len(modelidxs):
         # Add labels
         n = len(blob_labels)
-        blob_labels += ["Model output {0}".format(idx) for idx in modelidxs[n:]]
+        blob_labels = list(blob_labels) + [
+            "Model output {0}".format(idx) for idx in modelidxs[n:]
+        ]
 
     for modelidx, plot_sed, label in zip(modelidxs, sed, blob_labels):
         try:
-- 
2.43.0


From 3ed7864a1fe27da4db0ee1ff1f26047dcb69d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 54/59] fix: metadata of the results table is independent of
 the sampler's run_info

---
 src/naima/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index e8c9f90..b684868 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -1,4 +1,5 @@
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
+import copy
 import os
 from functools import wraps
 from pathlib import Path
@@ -287,7 +288,7 @@ def save_results_table(
 
     # And add all info stored in the sampler.run_info dict
     if hasattr(sampler, "run_info"):
-        metadata.update(sampler.run_info)
+        metadata.update(copy.deepcopy(sampler.run_info))
 
     for p, label in enumerate(labels):
         dist = dists[:, p]
-- 
2.43.0


From 757b03a6b7552b9f211bdbe0df06cacbd47e9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 55/59] fix: tabulated seed photon fields in another order than
 increasing energy gave negative emission

---
 src/naima/radiative.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 1ecf330..e4b718f 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -621,8 +621,10 @@ class InverseCompton(BaseElectron):
         photon spectrum following Eq. 22 of Aharonian & Atoyan 1981, Ap&SS 79,
         321 (`http://adsabs.harvard.edu/abs/1981Ap%26SS..79..321A`_)
         """
-        photE0 = (seed_energy / mec2).decompose().value
-        phn = seed_edensity
+        # the seed photon spectrum is integrated in increasing energy
+        order = np.argsort(seed_energy)
+        photE0 = (seed_energy[order] / mec2).decompose().value
+        phn = seed_edensity[order]
 
         # electron_energy = electron_energy[:, None]
         gamma_energy = gamma_energy[:, None]
-- 
2.43.0


From b273391baa6e1667acf752aa51b40e87b77f07f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:08 +0000
Subject: [PATCH 56/59] fix: models that hand back columns of the data table
 failed with several threads

---
 src/naima/core.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 2c412a9..19fa707 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -94,6 +94,18 @@ def lnprobmodel(model, data):
     return totallogprob
 
 
+def _detach(item):
+    """Views of the table columns in a blob, without reference to their table
+
+    Columns of a table cannot be sent back by the processes of a pool.
+    """
+    if isinstance(item, u.Quantity):
+        return item.view()
+    elif type(item) in (tuple, list):
+        return type(item)([_detach(i) for i in item])
+    return item
+
+
 def lnprob(pars, data, modelfunc, priorfunc):
     if priorfunc is None:
         lnprob_priors = 0.0
@@ -122,7 +134,7 @@ def lnprob(pars, data, modelfunc, priorfunc):
     # otherwise be merged into a single array and lose their units
     blobs = np.empty(len(blob), dtype=object)
     for i, item in enumerate(blob):
-        blobs[i] = item
+        blobs[i] = _detach(item)
 
     return total_lnprob, blobs
 
-- 
2.43.0


From ecdab431c9798726fa157c024badda0955504712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:08 +0000
Subject: [PATCH 57/59] fix: pion decay emission from the lookup table is never
 negative

---
 src/naima/radiative.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index e4b718f..ac7d704 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1559,6 +1559,9 @@ class PionDecay(BaseProton):
             else:
                 diffsigma = self.diffsigma(Ep.value, Eg.value) * u.Unit("cm2/GeV")
             specpp.append(trapz_loglog(diffsigma * J, Ep))
+            # the interpolated table overshoots around the kinematic limit
+            if specpp[-1] < 0:
+                specpp[-1] -= specpp[-1]
 
         self.specpp = u.Quantity(specpp)
 
-- 
2.43.0


From 988939f5e7def825de1c99b4491d64e887e93729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 58/59] fix: seed photon field selected by a numpy integer was
 rejected

---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index ac7d704..3e12c94 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -739,7 +739,7 @@ class InverseCompton(BaseElectron):
 
         if seed is not None:
             # Test seed argument
-            if not isinstance(seed, int):
+            if not isinstance(seed, (int, np.integer)):
                 if seed not in self.seed_photon_fields:
                     raise ValueError(
                         "Provided seed photon field name is not in"
-- 
2.43.0


From a6c9eaab8973ea09c169d146ab5742618ae1032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:10 +0000
Subject: [PATCH 59/59] fix: protons below the threshold of pion production do
 not make the spectrum NaN

---
 src/naima/radiative.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 3e12c94..bafccce 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1468,10 +1468,15 @@ class PionDecay(BaseProton):
         """
         Tp = Ep - self._m_p
 
-        diffsigma = self._Amax(Tp) * self._F(Tp, Egamma)
+        # there is no pion production below the threshold
+        above = np.where(Tp > self._Tth)
+        Tp = Tp[above]
+
+        diffsigma = np.zeros(Ep.shape)
+        diffsigma[above] = self._Amax(Tp) * self._F(Tp, Egamma)
 
         if self.nuclear_enhancement:
-            diffsigma *= self._nuclear_factor(Tp)
+            diffsigma[above] *= self._nuclear_factor(Tp)
 
         return diffsigma
 
-- 
2.43.0

