From a5a2f7400908774f4927b8bf4adf4ff901730803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 01/51] fix: eci state transforms accept arrays of more than
 one state

The per-state results overwrote the input arrays whose shape is needed to
shape the output, so every multi-element state raised ValueError.
---
 src/pymap3d/eci.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index 0eedb0b..a4e089f 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -451,15 +451,15 @@ def _apply_state_rotation(
     vel_out = numpy.empty((x.size, 3))
 
     for i in range(pos_in.shape[0]):
-        x, y, z, vx, vy, vz = _apply_state_rotation_scalar(
+        state = _apply_state_rotation_scalar(
             rotation,
             rotation_rate,
             *tuple(pos_in[i, :]),
             *tuple(vel_in[i, :]),
             inverse=inverse,
         )
-        pos_out[i, :] = (x, y, z)
-        vel_out[i, :] = (vx, vy, vz)
+        pos_out[i, :] = state[:3]
+        vel_out[i, :] = state[3:]
 
     return (
         pos_out[:, 0].reshape(x.shape),
-- 
2.43.0


From 11caab8ce7fc3967cec706307dd22cc2019a9dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 02/51] fix: geodetic2eci honours delta_ut1, xp and yp

The parameters were accepted and documented but not passed on to ecef2eci().
---
 src/pymap3d/ecef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 587f0df..138725b 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -549,7 +549,7 @@ def geodetic2eci(
 
     x, y, z = geodetic2ecef(lat, lon, alt, ell, deg)
 
-    return ecef2eci(x, y, z, t)
+    return ecef2eci(x, y, z, t, delta_ut1=delta_ut1, xp=xp, yp=yp)
 
 
 def enu2ecef(
-- 
2.43.0


From ba68812f0740cdccd56baee618758bf47cfb3c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 03/51] fix: lookAtSpheroid uses the given ellipsoid throughout

Observer position and intersection point were always computed on WGS84.
---
 src/pymap3d/los.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/los.py b/src/pymap3d/los.py
index f03abee..7eeeb54 100644
--- a/src/pymap3d/los.py
+++ b/src/pymap3d/los.py
@@ -76,7 +76,7 @@ def lookAtSpheroid(
     # fixed 1 km slant range
 
     u, v, w = enu2uvw(e, n, u, lat0, lon0, deg=deg)
-    x, y, z = geodetic2ecef(lat0, lon0, h0, deg=deg)
+    x, y, z = geodetic2ecef(lat0, lon0, h0, ell, deg=deg)
 
     value = -(a**2) * b**2 * w * z - a**2 * c**2 * v * y - b**2 * c**2 * u * x
     radical = (
@@ -112,6 +112,6 @@ def lookAtSpheroid(
             d = nan
 
     # %% cartesian to ellipsodal
-    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, deg=deg)
+    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, ell, deg=deg)
 
     return lat, lon, d
-- 
2.43.0


From 603c4be52ee0588624075c43bd83281adb74f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 04/51] fix: polar motion rotates from the pole of date to the
 terrestrial frame

The matrix was the inverse of the IERS polar motion matrix (cf. SOFA pom00),
so a nonzero xp, yp moved positions the wrong way.
---
 src/pymap3d/earth_orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/earth_orientation.py b/src/pymap3d/earth_orientation.py
index e649409..2d48d3d 100644
--- a/src/pymap3d/earth_orientation.py
+++ b/src/pymap3d/earth_orientation.py
@@ -282,7 +282,7 @@ def polar_motion_matrix(xp_arcsec: float = 0.0, yp_arcsec: float = 0.0):
 
     xp = xp_arcsec * ARCSEC2RAD
     yp = yp_arcsec * ARCSEC2RAD
-    return matmul3(rotation_y(xp), rotation_x(yp))
+    return matmul3(rotation_x(-yp), rotation_y(-xp))
 
 
 def eci_to_ecef_matrix(
-- 
2.43.0


From 558212d9f5e09fb29942877ad87f5dd1c0ba5c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 05/51] fix: geodesic functions resolve points next to the
 poles

_tiny stands in for cos(beta) = 0 and must be tiny in absolute terms
(GeographicLib: sqrt of the smallest normal float). The square root of
machine epsilon moved every point within 0.1 m of a pole to 0.1 m from it.
---
 src/pymap3d/karney.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index dfe7e71..fa141d7 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -23,7 +23,7 @@ from .mathfun import copysign, fmod, hypot, isnan, sqrt
 __all__ = ["geodesic_direct", "geodesic_inverse", "geodesic_line", "geodesic_area"]
 
 # --- Constants ---
-_tiny = sqrt(2.220446049250313e-16)
+_tiny = sqrt(2.2250738585072014e-308)
 _tol0 = 2.220446049250313e-16
 _tol1 = 200 * _tol0
 _tol2 = sqrt(_tol0)
-- 
2.43.0


From 72a53ae119b8ff085b0195db5ae0af3e506c7046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 06/51] fix: enu2aer leaves its arguments alone and accepts
 arrays with scalars

Small components were zeroed in the caller's arrays, and a scalar beside an
array raised TypeError.
---
 src/pymap3d/enu.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/pymap3d/enu.py b/src/pymap3d/enu.py
index ef78eaa..758f706 100644
--- a/src/pymap3d/enu.py
+++ b/src/pymap3d/enu.py
@@ -51,20 +51,16 @@ def enu2aer(e: FloatLike, n: FloatLike, u: FloatLike, deg: bool = True) -> tuple
 
     # 1 millimeter precision for singularity stability
 
-    def _zero_trim_numpy(x, y, z) -> tuple:
-        x[abs(x) < 1e-3] = 0.0
-        y[abs(y) < 1e-3] = 0.0
-        z[abs(z) < 1e-3] = 0.0
-        return x, y, z
-
-    def _zero_trim_scalar(*values: float, threshold: float = 1e-3) -> tuple[float, ...]:
-        """Trim small values (|x| < threshold) to zero."""
-        return tuple(0.0 if abs(v) < threshold else float(v) for v in values)
-
-    try:
-        e, n, u = _zero_trim_numpy(e, n, u)
-    except TypeError:
-        e, n, u = _zero_trim_scalar(float(e), float(n), float(u))
+    def _zero_trim(v):
+        """Trim small values (|v| < threshold) to zero."""
+        try:
+            v = v.copy()  # the caller's array is left as it is
+            v[abs(v) < 1e-3] = 0.0
+        except (AttributeError, TypeError):
+            v = 0.0 if abs(v) < 1e-3 else float(v)
+        return v
+
+    e, n, u = _zero_trim(e), _zero_trim(n), _zero_trim(u)
 
     r = hypot(e, n)
     slantRange = hypot(r, u)
-- 
2.43.0


From 6d19c50e3eb6ca84c29be21e4f7637640a646eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 07/51] fix: ecef2geodetic returns latitude in the shape of its
 inputs

Only latitude was squeezed, so it no longer matched longitude and altitude
for inputs having an axis of length one.
---
 src/pymap3d/ecef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 138725b..7850836 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -203,7 +203,7 @@ def ecef2geodetic(
 
         lat, alt = _lat_alt_numpy(x, y, z, Beta)
 
-        lat = lat.squeeze()[()]
+        lat = lat[()]
 
         return lat, alt
 
-- 
2.43.0


From ad60809fb47f2ffa2bf1919a6db64d05e886390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 08/51] fix: haversine keeps its precision for small angles and
 at antipodes

(1 - cos(theta)) / 2 loses all digits below 1e-8 rad, and round-off beyond 1
made the separation of antipodal points NaN or a ValueError.
---
 src/pymap3d/haversine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pymap3d/haversine.py b/src/pymap3d/haversine.py
index 48a5ca6..101a817 100644
--- a/src/pymap3d/haversine.py
+++ b/src/pymap3d/haversine.py
@@ -18,7 +18,7 @@ try:
 except ImportError:
     pass
 
-from .mathfun import asin, cos, degrees, radians, sqrt
+from .mathfun import asin, cos, degrees, minimum, radians, sin, sqrt
 
 __all__ = ["anglesep", "anglesep_meeus", "haversine"]
 
@@ -65,9 +65,9 @@ def anglesep_meeus(
         lon1 = radians(lon1)
         lat1 = radians(lat1)
 
-    sep_rad = 2 * asin(
-        sqrt(haversine(lat0 - lat1) + cos(lat0) * cos(lat1) * haversine(lon0 - lon1))
-    )
+    h = haversine(lat0 - lat1) + cos(lat0) * cos(lat1) * haversine(lon0 - lon1)
+    # round-off may exceed 1 for antipodal points
+    sep_rad = 2 * asin(sqrt(minimum(h, 1.0)))
 
     return degrees(sep_rad) if deg else sep_rad
 
@@ -140,4 +140,4 @@ def haversine(theta: FloatLike):
     https://en.wikipedia.org/wiki/Haversine
     Meeus p. 111
     """
-    return (1 - cos(theta)) / 2.0
+    return sin(theta / 2.0) ** 2
-- 
2.43.0


From 7becaef37e184cdd47a78689ea868a9a2d64f023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 09/51] fix: str2dt converts lists and datetime64 of every unit

The documented list of strings raised AttributeError; datetime64[ns] came out
as int and datetime64[D] as date.
---
 src/pymap3d/timeconv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/timeconv.py b/src/pymap3d/timeconv.py
index 4f5e710..e0ad384 100644
--- a/src/pymap3d/timeconv.py
+++ b/src/pymap3d/timeconv.py
@@ -28,5 +28,8 @@ def str2dt(time: DatetimeLike):
         return time
     elif isinstance(time, str):
         return datetime.fromisoformat(time)
+    elif isinstance(time, (list, tuple)):
+        return [str2dt(t) for t in time]
     else:
-        return time.astype(datetime)
+        # other units than microseconds convert to date or int
+        return time.astype("datetime64[us]").astype(datetime)
-- 
2.43.0


From 966f447dbc8b22a523e4fcee709c3de2bde9c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 10/51] fix: vdist and vreckon treat array elements
 independently

One antipodal pair set lambda to pi for the whole array (or raised), one pair
of coincident points made the azimuth of the others wrong, and latitudes given
in radians were overwritten at the poles. The warning filters, which are
global to the process, are no longer changed on the way. Results for scalars
are unchanged.
---
 src/pymap3d/vincenty.py | 111 +++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 70 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index d975633..d8dd6ce 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -4,19 +4,19 @@ Vincenty's methods for computing ground distance and reckoning
 
 from __future__ import annotations
 
-import warnings
-
 import logging
 from copy import copy
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import isnan, linspace, degrees, radians, sign, sqrt, atan2, cos, sin, tan, asin, atan
+from .mathfun import linspace, degrees, radians, sign, sqrt, atan2, cos, sin, tan, asin, atan
 from math import pi, tau, nan
 
 try:
-    from numpy import asarray
+    from numpy import asarray, where
 except ImportError:
-    pass
+
+    def where(condition, x, y):  # type: ignore
+        return x if condition else y
 
 
 __all__ = ["vdist", "vreckon", "track2"]
@@ -107,25 +107,14 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         lon2 = radians(lon2)
 
     try:
-        if (abs(lat1) > pi / 2).any() | (abs(lat2) > pi / 2).any():
+        if ((abs(lat1) > pi / 2) | (abs(lat2) > pi / 2)).any():
             raise ValueError("Input latitudes must be in [-90, 90] degrees.")
     except AttributeError:
         if abs(lat1) > pi / 2 or abs(lat2) > pi / 2:
             raise ValueError("Input latitudes must be in [-90, 90] degrees.")
     # %% correct for errors at exact poles by adjusting 0.6 millimeters:
-    try:
-        i = abs(pi / 2 - abs(lat1)) < 1e-10
-        lat1[i] = sign(lat1[i]) * (pi / 2 - 1e-10)
-    except TypeError:
-        if abs(pi / 2 - abs(lat1)) < 1e-10:
-            lat1 = sign(lat1) * (pi / 2 - 1e-10)
-
-    try:
-        i = abs(pi / 2 - abs(lat2)) < 1e-10
-        lat2[i] = sign(lat2[i]) * (pi / 2 - 1e-10)
-    except TypeError:
-        if abs(pi / 2 - abs(lat2)) < 1e-10:
-            lat2 = sign(lat2) * (pi / 2 - 1e-10)
+    lat1 = where(abs(pi / 2 - abs(lat1)) < 1e-10, sign(lat1) * (pi / 2 - 1e-10), lat1)
+    lat2 = where(abs(pi / 2 - abs(lat2)) < 1e-10, sign(lat2) * (pi / 2 - 1e-10), lat2)
 
     U1 = atan((1 - f) * tan(lat1))
     U2 = atan((1 - f) * tan(lat2))
@@ -133,15 +122,13 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
     lon2 = lon2 % (2 * pi)
     L = abs(lon2 - lon1)
 
-    try:
-        L[L > pi] = 2 * pi - L[L > pi]
-    except TypeError:
-        if L > pi:
-            L = 2 * pi - L
+    L = where(L > pi, 2 * pi - L, L)
 
     lamb = copy(L)  # NOTE: program will fail without copy!
     itercount = 0
     warninggiven = False
+    antipodal = L < 0  # none so far
+    sigma = alpha = cos2sigmam = 0.0
     notdone = True
     while notdone:  # force at least one execution
         itercount += 1
@@ -149,7 +136,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
             if not warninggiven:
                 logging.warning("Essentially antipodal points--precision may be reduced slightly.")
 
-            lamb = pi
+            lamb = where(abs(lamb - lambdaold) > 1e-12, pi, lamb)
             break
 
         lambdaold = copy(lamb)
@@ -163,33 +150,24 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         sinsigma = sinsigma.real
         cossigma = cossigma.real
 
-        sigma = atan2(sinsigma, cossigma)
+        # an element found to be antipodal keeps the values it had by then
+        sigma = where(antipodal, sigma, atan2(sinsigma, cossigma))
 
-        try:
-            with warnings.catch_warnings(record=True):
-                warnings.simplefilter("error")
-                sinAlpha = cos(U1) * cos(U2) * sin(lamb) / sin(sigma)
-
-                alpha = asin(sinAlpha)
-            alpha[isnan(sinAlpha)] = 0
-            alpha[(sinAlpha > 1) | (abs(sinAlpha - 1) < 1e-16)] = pi / 2
-
-        except (ArithmeticError, RuntimeWarning, TypeError, ValueError):
-            try:
-                with warnings.catch_warnings(record=True):
-                    warnings.simplefilter("error")
-                    sinAlpha = cos(U1) * cos(U2) * sin(lamb) / sin(sigma)
-            except (ArithmeticError, RuntimeWarning):
-                sinAlpha = 0.0
-
-            if isnan(sinAlpha):
-                alpha = 0.0
-            elif sinAlpha > 1 or abs(sinAlpha - 1) < 1e-16:
-                alpha = pi / 2
-            else:
-                alpha = asin(sinAlpha)
-
-        cos2sigmam = cos(sigma) - 2 * sin(U1) * sin(U2) / cos(alpha) ** 2
+        # coincident points have no azimuth
+        coincident = sin(sigma) == 0
+        sinAlpha = where(
+            coincident,
+            0.0,
+            cos(U1) * cos(U2) * sin(lamb) / where(coincident, 1.0, sin(sigma)),
+        )
+        # round-off may exceed 1
+        alpha = where(antipodal, alpha, asin(where(sinAlpha > 1, 1.0, sinAlpha)))
+
+        cos2sigmam = where(
+            antipodal,
+            cos2sigmam,
+            cos(sigma) - 2 * sin(U1) * sin(U2) / cos(alpha) ** 2,
+        )
 
         C = f / 16 * cos(alpha) ** 2 * (4 + f * (4 - 3 * cos(alpha) ** 2))
 
@@ -198,18 +176,21 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         )
         # print(f'then, lambda(21752) = {lamb[21752],20})
         # correct for convergence failure for essentially antipodal points
+        antipodal = antipodal | (lamb > pi)
+
         try:
-            i = (lamb > pi).any()
+            i = antipodal.any()
         except AttributeError:
-            i = lamb > pi
+            i = antipodal
 
         if i:
-            logging.warning(
-                "Essentially antipodal points encountered. Precision may be reduced slightly."
-            )
+            if not warninggiven:
+                logging.warning(
+                    "Essentially antipodal points encountered. Precision may be reduced slightly."
+                )
             warninggiven = True
-            lambdaold = pi
-            lamb = pi
+            lambdaold = where(antipodal, pi, lambdaold)
+            lamb = where(antipodal, pi, lamb)
 
         try:
             notdone = (abs(lamb - lambdaold) > 1e-12).any()
@@ -239,12 +220,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
     # correct sign of lambda for azimuth calcs:
     lamb = abs(lamb)
 
-    try:
-        i = sign(sin(lon2 - lon1)) * sign(sin(lamb)) < 0
-        lamb[i] = -lamb[i]
-    except TypeError:
-        if sign(sin(lon2 - lon1)) * sign(sin(lamb)) < 0:
-            lamb = -lamb
+    lamb = where(sign(sin(lon2 - lon1)) * sign(sin(lamb)) < 0, -lamb, lamb)
 
     numer = cos(U2) * sin(lamb)
     denom = cos(U1) * sin(U2) - sin(U1) * cos(U2) * cos(lamb)
@@ -350,12 +326,7 @@ def vreckon(
             raise ValueError("Input lat. must be between -90 and 90 deg., inclusive.")
 
     # correct for errors at exact poles by adjusting 0.6 millimeters:
-    try:
-        i = abs(pi / 2 - abs(lat1)) < 1e-10
-        lat1[i] = sign(lat1[i]) * (pi / 2 - (1e-10))
-    except TypeError:
-        if abs(pi / 2 - abs(lat1)) < 1e-10:
-            lat1 = sign(lat1) * (pi / 2 - (1e-10))
+    lat1 = where(abs(pi / 2 - abs(lat1)) < 1e-10, sign(lat1) * (pi / 2 - 1e-10), lat1)
 
     alpha1 = azim  # inital azimuth in radians
     sinAlpha1 = sin(alpha1)
-- 
2.43.0


From bb4fd0fb9fc8172d36614f48ac9fd92bb9227d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 11/51] fix: vreckon around a full circumference is not NaN

sigmaP started at 2 pi, so a distance of exactly one turn of the auxiliary
sphere skipped the iteration that computes the result.
---
 src/pymap3d/vincenty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index d8dd6ce..e8cf119 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -8,7 +8,7 @@ import logging
 from copy import copy
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import linspace, degrees, radians, sign, sqrt, atan2, cos, sin, tan, asin, atan
+from .mathfun import inf, linspace, degrees, radians, sign, sqrt, atan2, cos, sin, tan, asin, atan
 from math import pi, tau, nan
 
 try:
@@ -343,7 +343,7 @@ def vreckon(
     B = uSq / 1024 * (256 + uSq * (-128 + uSq * (74 - 47 * uSq)))
 
     sigma = rng / (b * A)
-    sigmaP = 2 * pi
+    sigmaP = inf
 
     sinSigma = nan
     cosSigma = nan
-- 
2.43.0


From 9a7f29029c3324ac4e45c5a2fe5aaf0613301559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 12/51] fix: geodetic2conformal converts each element of an
 array holding +90

One latitude of +90 turned the result for the whole array into the scalar 90.
The warning filters, which are global to the process, are no longer changed.
---
 src/pymap3d/latitude.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 4a56c08..b0e5203 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -4,8 +4,6 @@ from __future__ import annotations
 
 from ._typing import FloatArray, FloatLike
 
-import warnings
-
 from math import pi
 
 from . import rcurve
@@ -13,6 +11,7 @@ from .ellipsoid import Ellipsoid, resolve_ellipsoid
 from .mathfun import (
     asinh,
     atan,
+    atan2,
     atanh,
     cos,
     degrees,
@@ -364,13 +363,8 @@ def geodetic2conformal(geodetic_lat: FloatLike, ell: Ellipsoid | None = None, de
     f3 = 1 - sin(geodetic_lat)
     f4 = 1 + sin(geodetic_lat)
 
-    #  compute conformal latitudes with correction for points at +90
-    try:
-        with warnings.catch_warnings(record=True):
-            warnings.simplefilter("error")
-            conformal_lat = 2 * atan(sqrt((f4 / f3) * ((f1 / f2) ** e))) - (pi / 2)
-    except (ArithmeticError, RuntimeWarning):
-        conformal_lat = pi / 2
+    #  atan2 since f3 is zero at +90
+    conformal_lat = 2 * atan2(sqrt(f4 * ((f1 / f2) ** e)), sqrt(f3)) - (pi / 2)
 
     return degrees(conformal_lat) if deg else conformal_lat
 
-- 
2.43.0


From aa0b15d4f38e3cf223225a5d16087d30c5332645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 13/51] fix: loxodrome_inverse takes the shorter way across the
 antimeridian

The azimuth and length of a rhumb line between longitudes 179 and -179 were
those of the way round the other side, unlike departure() which it uses for
east-west lines.
---
 src/pymap3d/lox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index bcecf54..526df8a 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -154,7 +154,8 @@ def loxodrome_inverse(
 
     # compute changes in isometric latitude and longitude between points
     disolat = geodetic2isometric(lat2, ell, False) - geodetic2isometric(lat1, ell, False)
-    dlon = lon2 - lon1
+    # the shorter way round
+    dlon = (lon2 - lon1 + pi) % tau - pi
 
     # compute azimuth
     az12 = atan2(dlon, disolat)
-- 
2.43.0


From d14a300336c4241dc7b0c4f770e2efd6656b5ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 14/51] fix: azel2radec and radec2azel hold at the poles and
 the zenith

The pure-Python path divided by cos(latitude), cos(declination) and
cos(elevation), which made azimuth and right ascension arbitrary at and next
to the poles, and the argument of asin could exceed 1 by round-off.
---
 src/pymap3d/vallado.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index b397ac0..8290ce8 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -12,7 +12,7 @@ from datetime import datetime
 
 from ._typing import FloatLike
 
-from .mathfun import asin, atan2, cos, degrees, radians, sin
+from .mathfun import atan2, cos, degrees, hypot, radians, sin
 from .sidereal import datetime2sidereal
 
 __all__ = ["azel2radec", "radec2azel"]
@@ -65,12 +65,14 @@ def azel2radec(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
     # %% Vallado "algorithm 28" p 268
-    dec = asin(sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az))
+    # unit vector toward the equator on the meridian, toward west, toward the pole;
+    # with nothing to divide by, it also holds at the poles, at zenith and nadir
+    x = sin(el) * cos(lat) - cos(el) * sin(lat) * cos(az)
+    y = -(sin(az) * cos(el))
+    z = sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az)
 
-    lha = atan2(
-        -(sin(az) * cos(el)) / cos(dec),
-        (sin(el) - sin(lat) * sin(dec)) / (cos(dec) * cos(lat)),
-    )
+    dec = atan2(z, hypot(x, y))
+    lha = atan2(y, x)
 
     lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # lon, ra in RADIANS
 
@@ -127,12 +129,13 @@ def radec2azel(
     lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # RADIANS
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
-    # %% #Eq. 4-12 p. 267
-    el = asin(sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha))
-    # %% combine Eq. 4-13 and 4-14 p. 268
-    az = atan2(
-        -sin(lha) * cos(dec) / cos(el),
-        (sin(dec) - sin(el) * sin(lat)) / (cos(el) * cos(lat)),
-    )
+    # %% Eq. 4-12 to 4-14 p. 267, as a unit vector north, east, up;
+    # with nothing to divide by, it also holds at the poles, at zenith and nadir
+    n = sin(dec) * cos(lat) - cos(dec) * sin(lat) * cos(lha)
+    e = -sin(lha) * cos(dec)
+    up = sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha)
+
+    el = atan2(up, hypot(n, e))
+    az = atan2(e, n)
 
     return degrees(az) % 360.0, degrees(el)
-- 
2.43.0


From 1c7e5ed6aa12116fbee4e87ddc2d2ca2c231d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 15/51] fix: nvector_cross_track_distance is a number at the
 pole of the circle

Round-off took the argument of asin beyond 1: NaN, or ValueError without NumPy.
---
 src/pymap3d/nvector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/nvector.py b/src/pymap3d/nvector.py
index 800fb05..bf29972 100644
--- a/src/pymap3d/nvector.py
+++ b/src/pymap3d/nvector.py
@@ -285,7 +285,10 @@ def nvector_cross_track_distance(
     cx, cy, cz = _norm3(cx, cy, cz)
 
     # Signed angular distance from the great circle
-    return radius * asin(_dot3(cx, cy, cz, np_1, np_2, np_3))
+    # (not by asin, whose argument may exceed 1 by round-off at the pole of the circle)
+    dx, dy, dz = _cross3(cx, cy, cz, np_1, np_2, np_3)
+    dot = _dot3(cx, cy, cz, np_1, np_2, np_3)
+    return radius * atan2(dot, sqrt(dx * dx + dy * dy + dz * dz))
 
 
 def nvector_intersection(
-- 
2.43.0


From 23f3e6bff22186b6fa03186c79372e1a4814b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 16/51] fix: nvector2geodetic keeps its precision at the poles

asin lost half the digits there, 0.1 m on the ground, where n-vectors are
meant to have no singularity.
---
 src/pymap3d/nvector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/nvector.py b/src/pymap3d/nvector.py
index bf29972..3886953 100644
--- a/src/pymap3d/nvector.py
+++ b/src/pymap3d/nvector.py
@@ -11,7 +11,7 @@ The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
 from __future__ import annotations
 
 from ._typing import FloatLike
-from .mathfun import acos, asin, atan2, cos, degrees, radians, sin, sqrt
+from .mathfun import acos, atan2, cos, degrees, hypot, radians, sin, sqrt
 from .ecef import geodetic2ecef, ecef2geodetic
 from .ellipsoid import Ellipsoid
 
@@ -66,7 +66,7 @@ def nvector2geodetic(n1: FloatLike, n2: FloatLike, n3: FloatLike, deg: bool = Tr
     """
 
     # Compute latitude and longitude from n-vector
-    lat = asin(n3)
+    lat = atan2(n3, hypot(n1, n2))
     lon = atan2(n2, n1)
 
     if deg:
-- 
2.43.0


From 2173fb393effa32dbec2f58c898931178f6567bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 17/51] fix: geodetic2spherical and spherical2geodetic keep
 their precision at the poles

cos(lat) from 1 - sin(lat)**2 and latitude from asin lost half the digits,
0.1 m on the ground.
---
 src/pymap3d/spherical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/spherical.py b/src/pymap3d/spherical.py
index fde9166..3f5b2d6 100644
--- a/src/pymap3d/spherical.py
+++ b/src/pymap3d/spherical.py
@@ -9,7 +9,7 @@ from __future__ import annotations
 from ._typing import FloatLike
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import asin, atan2, cube_root, degrees, hypot, power, radians, sin, sqrt
+from .mathfun import atan2, cos, cube_root, degrees, hypot, power, radians, sin, sqrt
 
 __all__ = [
     "geodetic2spherical",
@@ -69,7 +69,7 @@ def geodetic2spherical(
 
     # Pre-compute to avoid repeated trigonometric functions
     sinlat = sin(lat)
-    coslat = sqrt(1 - sinlat**2)
+    coslat = cos(lat)
 
     # radius of curvature of the prime vertical section
     N = ell.semimajor_axis**2 / hypot(
@@ -82,7 +82,7 @@ def geodetic2spherical(
     xy_projection = (alt + N) * coslat
     z_cartesian = (alt + (1 - ell.eccentricity**2) * N) * sinlat
     radius = hypot(xy_projection, z_cartesian)
-    slat = asin(z_cartesian / radius)
+    slat = atan2(z_cartesian, xy_projection)
 
     if deg:
         slat = degrees(slat)
@@ -138,7 +138,7 @@ def spherical2geodetic(
 
     # Pre-compute to avoid repeated trigonometric functions
     sinlat = sin(lat)
-    coslat = sqrt(1 - sinlat**2)
+    coslat = cos(lat)
 
     Z = radius * sinlat
     p_0 = power(radius, 2) * coslat**2 / ell.semimajor_axis**2
-- 
2.43.0


From cf9268cf8a2c4e9fdb235331a8a8758ad3bb25de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 18/51] fix: CLI leaves options defaulting to None at None

nvector_distance and nvector_cross_track_distance got the text "None" for the
radius and failed unless --radius was given.
---
 src/pymap3d/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 8a1c083..1cf2dd1 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -103,7 +103,7 @@ def _add_parameter_arg(parser: argparse.ArgumentParser, param: inspect.Parameter
         parser.add_argument(
             f"--{name.replace('_', '-')}",
             dest=dest,
-            default=str(default),
+            default=None if default is None else str(default),
             help=f"{name} (default: {default})",
         )
     else:
-- 
2.43.0


From fb9e6f74b436449fb2403031ac08fa55da455efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 19/51] fix: CLI prints array results as JSON

Comma-separated inputs with --output json raised TypeError.
---
 src/pymap3d/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 1cf2dd1..cb27fea 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -183,6 +183,9 @@ def _to_jsonable(value: Any) -> Any:
         case datetime():
             return value.isoformat()
 
+    if hasattr(value, "tolist"):  # NumPy array or scalar
+        return value.tolist()
+
     return value
 
 
-- 
2.43.0


From 53f668975b272142cfda3f9ce271395960882dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 20/51] fix: ecef2geodetic and spherical2geodetic of 32-bit
 integers

Squaring the integers overflowed, giving NaN. 32-bit is NumPy's default
integer on Windows before NumPy 2.
---
 src/pymap3d/ecef.py      | 14 +++++++-------
 src/pymap3d/spherical.py |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 7850836..1e2ecf9 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -127,7 +127,7 @@ def ecef2geodetic(
 
     ell = resolve_ellipsoid(ell)
 
-    r = sqrt(x**2 + y**2 + z**2)
+    r = hypot(hypot(x, y), z)
 
     E = sqrt(ell.semimajor_axis**2 - ell.semiminor_axis**2)
 
@@ -141,18 +141,18 @@ def ecef2geodetic(
     def _inside_numpy(x, y, z):
         # inside ellipsoid?
         return (
-            x**2 / ell.semimajor_axis**2
-            + y**2 / ell.semimajor_axis**2
-            + z**2 / ell.semiminor_axis**2
+            (x / ell.semimajor_axis) ** 2
+            + (y / ell.semimajor_axis) ** 2
+            + (z / ell.semiminor_axis) ** 2
             < 1
         )
 
     def _inside_scalar(x: float, y: float, z: float) -> bool:
         # inside ellipsoid?
         return (
-            x**2 / ell.semimajor_axis**2
-            + y**2 / ell.semimajor_axis**2
-            + z**2 / ell.semiminor_axis**2
+            (x / ell.semimajor_axis) ** 2
+            + (y / ell.semimajor_axis) ** 2
+            + (z / ell.semiminor_axis) ** 2
             < 1
         )
 
diff --git a/src/pymap3d/spherical.py b/src/pymap3d/spherical.py
index 3f5b2d6..3f06916 100644
--- a/src/pymap3d/spherical.py
+++ b/src/pymap3d/spherical.py
@@ -9,7 +9,7 @@ from __future__ import annotations
 from ._typing import FloatLike
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import atan2, cos, cube_root, degrees, hypot, power, radians, sin, sqrt
+from .mathfun import atan2, cos, cube_root, degrees, hypot, radians, sin, sqrt
 
 __all__ = [
     "geodetic2spherical",
@@ -141,7 +141,7 @@ def spherical2geodetic(
     coslat = cos(lat)
 
     Z = radius * sinlat
-    p_0 = power(radius, 2) * coslat**2 / ell.semimajor_axis**2
+    p_0 = (radius * coslat / ell.semimajor_axis) ** 2
     q_0 = (1 - ell.eccentricity**2) / ell.semimajor_axis**2 * Z**2
     r_0 = (p_0 + q_0 - ell.eccentricity**4) / 6
     s_0 = ell.eccentricity**4 * p_0 * q_0 / 4 / r_0**3
-- 
2.43.0


From 459e3e2fa4d401844d98dcbfa2eb8e9049cf54fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 21/51] fix: geoc2geod second-order term has the right sign

Long's expansion has 1/r^2 - 1/(4r) in front of sin(4 lat) f^2; with the plus
sign the latitude was off by up to f^2/2, 35 m on the ground.
---
 src/pymap3d/latitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index b0e5203..4ff4d20 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -89,7 +89,7 @@ def geoc2geod(
     geodetic_lat = (
         geocentric_lat
         + (sin(2 * geocentric_lat) / r) * ell.flattening
-        + ((1 / r**2 + 1 / (4 * r)) * sin(4 * geocentric_lat)) * ell.flattening**2
+        + ((1 / r**2 - 1 / (4 * r)) * sin(4 * geocentric_lat)) * ell.flattening**2
     )
 
     return degrees(geodetic_lat) if deg else geodetic_lat
-- 
2.43.0


From 1163b247e64089203610f5e5d74e738d1dbcfd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 22/51] fix: vreckon returns for ranges of very many turns

With the arc so long that 1e-12 radian is below its precision the iteration
need not settle and vreckon never returned.
---
 src/pymap3d/vincenty.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index e8cf119..07891b3 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -354,7 +354,9 @@ def vreckon(
     except AttributeError:
         i = abs(sigma - sigmaP) > 1e-12
 
+    itercount = 0
     while i:
+        itercount += 1
         cos2SigmaM = cos(2 * sigma1 + sigma)
         sinSigma = sin(sigma)
         cosSigma = cos(sigma)
@@ -377,6 +379,8 @@ def vreckon(
         )
         sigmaP = sigma
         sigma = rng / (b * A) + deltaSigma
+        if itercount > 50:  # so far that 1e-12 radian is below the precision of sigma
+            break
         try:
             i = (abs(sigma - sigmaP) > 1e-12).any()
         except AttributeError:
-- 
2.43.0


From 00c63170326c7dc3dd5282082c0b2ee54f64d611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 23/51] fix: geodesic_inverse azimuths keep their precision
 next to the equator

---
 src/pymap3d/karney.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index fa141d7..bd7bb19 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -522,7 +522,7 @@ class _Geodesic:
         salp2 = salp0 / cbet2 if cbet2 != cbet1 else salp1
         calp2 = (
             sqrt((calp1 * cbet1) ** 2 +
-                 ((cbet2 - cbet1) * (cbet1 + cbet2) if cbet2 != cbet1
+                 ((cbet2 - cbet1) * (cbet1 + cbet2) if cbet1 < -sbet1
                   else (sbet1 - sbet2) * (sbet1 + sbet2))) / cbet2
             if cbet2 != cbet1 or abs(sbet2) != -sbet1
             else abs(calp1))
@@ -602,6 +602,8 @@ class _Geodesic:
         if cbet1 < -sbet1:
             if cbet2 == cbet1:
                 sbet2 = sbet1 if sbet2 < 0 else -sbet1
+        elif abs(sbet2) == -sbet1:
+            cbet2 = cbet1
 
         dn1 = sqrt(1.0 + self._ep2 * sbet1 ** 2)
         dn2 = sqrt(1.0 + self._ep2 * sbet2 ** 2)
-- 
2.43.0


From 481567d6d4ddc51e479cbdfc710884b76a8c237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 24/51] fix: geodesic_inverse azimuths of nearly antipodal
 points on one meridian

---
 src/pymap3d/karney.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index bd7bb19..759d040 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -467,7 +467,8 @@ class _Geodesic:
                 eps = k2 / (2.0 * (1.0 + sqrt(1.0 + k2)) + k2)
                 lamscale = self.f * cbet1 * self._A3f(eps) * math.pi
                 betscale = lamscale * cbet1
-                x = (lam12 - math.pi) / lamscale
+                # lam12 - pi, without the rounding of lam12
+                x = math.atan2(-slam12, -clam12) / lamscale
                 y = sbet12a / betscale
             else:
                 cbet12a = cbet2 * cbet1 - sbet2 * sbet1
@@ -482,7 +483,7 @@ class _Geodesic:
                 lamscale = betscale / cbet1
                 y = (lam12 - math.pi) / lamscale
 
-            if y < -_tol1 and x > -1.0 - _xthresh:
+            if y > -_tol1 and x > -1.0 - _xthresh:
                 if self.f >= 0:
                     salp1 = min(1.0, -x)
                     calp1 = -sqrt(1.0 - salp1 ** 2)
-- 
2.43.0


From 8f691e666f3d1fa168d470cb537237ec61ae4d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 25/51] fix: geodesic_area of vertices in radians equals that
 of the same vertices in degrees

---
 src/pymap3d/karney.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index 759d040..02efb59 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -1006,6 +1006,8 @@ def geodesic_area(
         j = (i + 1) % n
         dist_ij, azi1_ij, azi2_ij = geodesic_inverse(
             lats[i], lons[i], lats[j], lons[j], ell=ell, deg=deg)
+        if not deg:
+            azi1_ij, azi2_ij = math.degrees(azi1_ij), math.degrees(azi2_ij)
         perimeter += dist_ij
         if i == 0:
             azi1_first = azi1_ij
-- 
2.43.0


From 52e239dc7434b182af862ee84a6a7c7960e62489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 26/51] fix: loxodrome_inverse between points at one pole is
 not NaN

---
 src/pymap3d/lox.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index 526df8a..17b3d2b 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -153,7 +153,15 @@ def loxodrome_inverse(
         pass
 
     # compute changes in isometric latitude and longitude between points
-    disolat = geodetic2isometric(lat2, ell, False) - geodetic2isometric(lat1, ell, False)
+    iso1 = geodetic2isometric(lat1, ell, False)
+    iso2 = geodetic2isometric(lat2, ell, False)
+    disolat = iso2 - iso1
+    # infinite at the poles, whose difference is not a number
+    try:
+        disolat[iso1 == iso2] = 0.0
+    except (AttributeError, TypeError):
+        if iso1 == iso2:
+            disolat = 0.0
     # the shorter way round
     dlon = (lon2 - lon1 + pi) % tau - pi
 
-- 
2.43.0


From 237acc06915aac7b22772ee17c16a77637179127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 27/51] fix: rhumb lines nearly along a parallel keep their
 precision

---
 src/pymap3d/lox.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index 17b3d2b..a93033e 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -22,7 +22,7 @@ from .latitude import (
     geodetic2rectifying,
     rectifying2geodetic,
 )
-from .mathfun import atan2, cos, degrees, radians, sign, tan
+from .mathfun import atan2, cos, degrees, hypot, radians, sin, tan
 from .utils import cart2sph, sph2cart
 
 __all__ = [
@@ -172,13 +172,14 @@ def loxodrome_inverse(
     # compute distance along loxodromic curve
     dist = meridian_arc(lat2, lat1, deg=False, ell=ell) / aux
 
-    # straight east or west
-    i = aux < COS_EPS
+    # nearly along a parallel, arc length and cosine are lost to round-off
+    i = (abs(lat2 - lat1) <= 1e-5 * cos(lat1)) | (disolat == 0)
+    along = rcurve.parallel((lat1 + lat2) / 2, ell, False) * hypot(dlon, disolat)
     try:
-        dist[i] = departure(lon2[i], lon1[i], lat1[i], ell, deg=False)
+        dist[i] = along[i]
     except (AttributeError, TypeError):
         if i:
-            dist = departure(lon2, lon1, lat1, ell, deg=False)
+            dist = along
 
     if deg:
         az12 = degrees(az12) % 360.0
@@ -256,15 +257,16 @@ def loxodrome_direct(
     newiso = geodetic2isometric(lat2, ell, False)
     iso = geodetic2isometric(lat1, ell, False)
 
-    # stability near singularities
-    i = abs(cos(a12)) < COS_EPS
     dlon = tan(a12) * (newiso - iso)
 
+    # nearly along a parallel, the change of isometric latitude is lost to round-off
+    i = abs(lat2 - lat1) <= 1e-4 * cos(lat1)
+    along = sin(a12) * rng / rcurve.parallel((lat1 + lat2) / 2, ell, False)
     try:
-        dlon[i] = sign(pi - a12[i]) * rng[i] / rcurve.parallel(lat1[i], ell, False)
+        dlon[i] = along[i]
     except (AttributeError, TypeError):
-        if i:  # straight east or west
-            dlon = sign(pi - a12) * rng / rcurve.parallel(lat1, ell, False)
+        if i:
+            dlon = along
 
     lon2 = lon1 + dlon
 
-- 
2.43.0


From 73fa47429f604850316a07aad63a469111736994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 28/51] fix: azel2radec and radec2azel accept arrays of
 observer latitude

---
 src/pymap3d/vallado.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index 8290ce8..d33063d 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -57,8 +57,12 @@ def azel2radec(
     p.258-259
     """
 
-    if abs(lat_deg) > 90:
-        raise ValueError("-90 <= lat <= 90")
+    try:
+        if (abs(lat_deg) > 90).any():
+            raise ValueError("-90 <= lat <= 90")
+    except AttributeError:
+        if abs(lat_deg) > 90:
+            raise ValueError("-90 <= lat <= 90")
 
     az = radians(az_deg)
     el = radians(el_deg)
@@ -118,8 +122,12 @@ def radec2azel(
     from D. Vallado "Fundamentals of Astrodynamics and Applications "
        4th Edition Ch. 4.4 pg. 266-268
     """
-    if abs(lat_deg) > 90:
-        raise ValueError("-90 <= lat <= 90")
+    try:
+        if (abs(lat_deg) > 90).any():
+            raise ValueError("-90 <= lat <= 90")
+    except AttributeError:
+        if abs(lat_deg) > 90:
+            raise ValueError("-90 <= lat <= 90")
 
     ra = radians(ra_deg)
     dec = radians(dec_deg)
-- 
2.43.0


From e45ce25f4cabcabaca36d139b42cb7cc90bf093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 29/51] fix: forced built-in azel2radec and radec2azel use
 built-in sidereal time and delta_ut1

---
 src/pymap3d/vallado.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index d33063d..edf658a 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -78,7 +78,9 @@ def azel2radec(
     dec = atan2(z, hypot(x, y))
     lha = atan2(y, x)
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # lon, ra in RADIANS
+    lst = datetime2sidereal(
+        time, lon, force_non_astropy=True, delta_ut1=delta_ut1
+    )  # lon, ra in RADIANS
 
     """ by definition right ascension [0, 360) degrees """
     return degrees(lst - lha) % 360, degrees(dec)
@@ -134,7 +136,9 @@ def radec2azel(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # RADIANS
+    lst = datetime2sidereal(
+        time, lon, force_non_astropy=True, delta_ut1=delta_ut1
+    )  # RADIANS
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
     # %% Eq. 4-12 to 4-14 p. 267, as a unit vector north, east, up;
-- 
2.43.0


From be047693dc273e998f148345722bd000885ff521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 30/51] fix: ecef2geodetic accepts scalars among array
 coordinates

---
 src/pymap3d/ecef.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 1e2ecf9..992a52b 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -7,7 +7,7 @@ from __future__ import annotations
 import warnings
 
 try:
-    from numpy import empty_like, finfo, where
+    from numpy import broadcast_arrays, empty_like, finfo, shape, where
 except ImportError:
     pass
 
@@ -127,6 +127,13 @@ def ecef2geodetic(
 
     ell = resolve_ellipsoid(ell)
 
+    try:
+        if not shape(x) == shape(y) == shape(z):
+            # scalars among arrays
+            x, y, z = broadcast_arrays(x, y, z)
+    except NameError:
+        pass
+
     r = hypot(hypot(x, y), z)
 
     E = sqrt(ell.semimajor_axis**2 - ell.semiminor_axis**2)
-- 
2.43.0


From 50618ab3c5c002395ba058c9cadf0acf65f52d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 31/51] fix: ecef2geodetic of scalars leaves the process-wide
 warning filters alone

---
 src/pymap3d/ecef.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 992a52b..64389f4 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -4,8 +4,6 @@ as well as related ENU (east, north, up) and ECI (earth-centered inertial) frame
 
 from __future__ import annotations
 
-import warnings
-
 try:
     from numpy import broadcast_arrays, empty_like, finfo, shape, where
 except ImportError:
@@ -217,15 +215,14 @@ def ecef2geodetic(
     def _beta_scalar(x: float, y: float, z: float) -> tuple:
         """using scalar math"""
         try:
-            with warnings.catch_warnings(record=True):
-                warnings.simplefilter("error")
-                Beta = atan(huE / u * z / hxy)
-                # eqn. 13
-                Beta += (
-                    (ell.semiminor_axis * u - ell.semimajor_axis * huE + E**2)
-                    * sin(Beta)
-                ) / (ell.semimajor_axis * huE * 1 / cos(Beta) - E**2 * cos(Beta))
-        except (ArithmeticError, RuntimeWarning):
+            # Python floats: division by zero raises whatever the warning filters and NumPy error state
+            Beta = atan(float(huE) / float(u) * z / float(hxy))
+            # eqn. 13
+            Beta += (
+                (ell.semiminor_axis * u - ell.semimajor_axis * huE + E**2)
+                * sin(Beta)
+            ) / (ell.semimajor_axis * huE * 1 / cos(Beta) - E**2 * cos(Beta))
+        except ArithmeticError:
             if isclose(z, 0):
                 Beta = 0
             elif z > 0:
-- 
2.43.0


From 5eeaaa5767f80eeee2c3611f15926c4413c5358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 32/51] fix: lookAtSpheroid of an observer on the surface is
 not NaN by round-off

---
 src/pymap3d/los.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/los.py b/src/pymap3d/los.py
index 7eeeb54..f9bca0b 100644
--- a/src/pymap3d/los.py
+++ b/src/pymap3d/los.py
@@ -105,11 +105,13 @@ def lookAtSpheroid(
 
     d = (value - a * b * c * sqrt(radical)) / magnitude
 
+    # on the surface itself d is zero up to round-off
     try:
+        d[(d < 0) & (d > -1e-12 * a)] = 0.0
         d[d < 0] = nan
     except TypeError:
         if d < 0:
-            d = nan
+            d = 0.0 if d > -1e-12 * a else nan
 
     # %% cartesian to ellipsodal
     lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, ell, deg=deg)
-- 
2.43.0


From 4c7b05aa10573911b224cd9c197d85f0c4a7c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 33/51] fix: track2 refuses antipodal end points

---
 src/pymap3d/vincenty.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 07891b3..5cd1777 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -470,8 +470,10 @@ def track2(
         lat2 = radians(lat2)
         lon2 = radians(lon2)
 
-    gcarclen = 2.0 * asin(
-        sqrt((sin((lat1 - lat2) / 2)) ** 2 + cos(lat1) * cos(lat2) * (sin((lon1 - lon2) / 2)) ** 2)
+    # atan2 is accurate for nearly antipodal points, where asin is not
+    gcarclen = 2.0 * atan2(
+        sqrt((sin((lat1 - lat2) / 2)) ** 2 + cos(lat1) * cos(lat2) * (sin((lon1 - lon2) / 2)) ** 2),
+        sqrt((sin((lat1 + lat2) / 2)) ** 2 + cos(lat1) * cos(lat2) * (cos((lon1 - lon2) / 2)) ** 2),
     )
     # check to see if points are antipodal (if so, route is undefined).
     if abs(gcarclen - pi) < 1e-12:
-- 
2.43.0


From 55f3b23e5dadf797db322179970c8144edb3736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:21 +0000
Subject: [PATCH 34/51] fix: vdist warns through its module's logger,
 installing no handler on the root logger

---
 src/pymap3d/vincenty.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 5cd1777..6beda05 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -21,6 +21,8 @@ except ImportError:
 
 __all__ = ["vdist", "vreckon", "track2"]
 
+_logger = logging.getLogger(__name__)
+
 
 def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True) -> tuple:
     """
@@ -134,7 +136,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         itercount += 1
         if itercount > 50:
             if not warninggiven:
-                logging.warning("Essentially antipodal points--precision may be reduced slightly.")
+                _logger.warning("Essentially antipodal points--precision may be reduced slightly.")
 
             lamb = where(abs(lamb - lambdaold) > 1e-12, pi, lamb)
             break
@@ -185,7 +187,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
 
         if i:
             if not warninggiven:
-                logging.warning(
+                _logger.warning(
                     "Essentially antipodal points encountered. Precision may be reduced slightly."
                 )
             warninggiven = True
-- 
2.43.0


From 0e3fc78285dcbd0705ce1c8d2f94ce4ad44133d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:25 +0000
Subject: [PATCH 35/51] fix: loxodrome_direct broadcasts the starting longitude
 with the other arguments

---
 src/pymap3d/lox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index a93033e..f2a7f38 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -233,7 +233,7 @@ def loxodrome_direct(
     a12 = a12 % tau
 
     try:
-        lat1, rng, a12 = broadcast_arrays(lat1, rng, a12)
+        lat1, lon1, rng, a12 = broadcast_arrays(lat1, lon1, rng, a12)
         if (abs(lat1) > pi / 2).any():
             raise ValueError("-90 <= latitude <= 90")
         if (rng < 0).any():
-- 
2.43.0


From ce4bfa263e233c6d00ef3c54a6da8267e0f7138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:27 +0000
Subject: [PATCH 36/51] fix: latitudes of exactly 90 degrees in single
 precision are the pole

---
 src/pymap3d/latitude.py | 16 ++++++++++------
 src/pymap3d/vincenty.py |  7 ++++---
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 4ff4d20..fd3fa44 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -131,7 +131,9 @@ def geodetic2geocentric(geodetic_lat: FloatLike, alt_m: FloatLike, ell: Ellipsoi
         geodetic_lat = radians(geodetic_lat)
 
     r = rcurve.transverse(geodetic_lat, ell, deg=False)
-    geocentric_lat = atan((1 - ell.eccentricity**2 * (r / (r + alt_m))) * tan(geodetic_lat))
+    geocentric_lat = atan2(
+        (1 - ell.eccentricity**2 * (r / (r + alt_m))) * sin(geodetic_lat), cos(geodetic_lat)
+    )
 
     return degrees(geocentric_lat) if deg else geocentric_lat
 
@@ -175,7 +177,9 @@ def geocentric2geodetic(geocentric_lat: FloatLike, alt_m, ell: Ellipsoid | None
         geocentric_lat = radians(geocentric_lat)
 
     r = rcurve.transverse(geocentric_lat, ell, deg=False)
-    geodetic_lat = atan(tan(geocentric_lat) / (1 - ell.eccentricity**2 * (r / (r + alt_m))))
+    geodetic_lat = atan2(
+        sin(geocentric_lat) / (1 - ell.eccentricity**2 * (r / (r + alt_m))), cos(geocentric_lat)
+    )
 
     return degrees(geodetic_lat) if deg else geodetic_lat
 
@@ -225,8 +229,8 @@ def geodetic2isometric(geodetic_lat: FloatArray, ell: Ellipsoid | None = None, d
     # isometric_lat = log(tan(a2) * (y ** (e / 2)))
     # isometric_lat = log(tan(a2)) + e/2 * log((1-e*sin(geodetic_lat)) / (1+e*sin(geodetic_lat)))
 
-    coslat = cos(geodetic_lat)
-    i = abs(coslat) <= COS_EPS
+    # also a single-precision pole, which is just beyond the pole
+    i = abs(abs(geodetic_lat) - pi / 2) <= COS_EPS
 
     try:
         isometric_lat[i] = sign(geodetic_lat[i]) * inf
@@ -598,7 +602,7 @@ def geodetic2parametric(geodetic_lat: FloatLike, ell: Ellipsoid | None = None, d
     if deg:
         geodetic_lat = radians(geodetic_lat)
 
-    parametric_lat = atan(sqrt(1 - (ell.eccentricity) ** 2) * tan(geodetic_lat))
+    parametric_lat = atan2(sqrt(1 - (ell.eccentricity) ** 2) * sin(geodetic_lat), cos(geodetic_lat))
 
     return degrees(parametric_lat) if deg else parametric_lat
 
@@ -635,6 +639,6 @@ def parametric2geodetic(parametric_lat: FloatLike, ell: Ellipsoid | None = None,
     if deg:
         parametric_lat = radians(parametric_lat)
 
-    geodetic_lat = atan(tan(parametric_lat) / sqrt(1 - (ell.eccentricity) ** 2))
+    geodetic_lat = atan2(sin(parametric_lat), sqrt(1 - (ell.eccentricity) ** 2) * cos(parametric_lat))
 
     return degrees(geodetic_lat) if deg else geodetic_lat
diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 6beda05..4fc9ee5 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -118,8 +118,8 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
     lat1 = where(abs(pi / 2 - abs(lat1)) < 1e-10, sign(lat1) * (pi / 2 - 1e-10), lat1)
     lat2 = where(abs(pi / 2 - abs(lat2)) < 1e-10, sign(lat2) * (pi / 2 - 1e-10), lat2)
 
-    U1 = atan((1 - f) * tan(lat1))
-    U2 = atan((1 - f) * tan(lat2))
+    U1 = atan2((1 - f) * sin(lat1), cos(lat1))
+    U2 = atan2((1 - f) * sin(lat2), cos(lat2))
     lon1 = lon1 % (2 * pi)
     lon2 = lon2 % (2 * pi)
     L = abs(lon2 - lon1)
@@ -334,7 +334,8 @@ def vreckon(
     sinAlpha1 = sin(alpha1)
     cosAlpha1 = cos(alpha1)
 
-    tanU1 = (1 - f) * tan(lat1)
+    # a single-precision pole is just beyond the pole
+    tanU1 = (1 - f) * sin(lat1) / abs(cos(lat1))
     cosU1 = 1 / sqrt(1 + tanU1**2)
     sinU1 = tanU1 * cosU1
     sigma1 = atan2(tanU1, cosAlpha1)
-- 
2.43.0


From f48ea96aae456955f0722e495b34cb412d4d8340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 37/51] fix: vdist in single precision keeps azimuths whose
 iteration only flickers in the last digit

---
 src/pymap3d/vincenty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 4fc9ee5..1c7354f 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -138,7 +138,8 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
             if not warninggiven:
                 _logger.warning("Essentially antipodal points--precision may be reduced slightly.")
 
-            lamb = where(abs(lamb - lambdaold) > 1e-12, pi, lamb)
+            # a last-digit flicker (single precision) has converged as well
+            lamb = where(abs(lamb - lambdaold) > 1e-6, pi, lamb)
             break
 
         lambdaold = copy(lamb)
-- 
2.43.0


From 26b778aaf24d87e852588b4ff1a2284d5c3ac4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 38/51] fix: n-vector interpolation keeps its precision between
 nearly antipodal points

The angle was taken from the arc cosine of the dot product, which loses half
of its digits near 0 and pi; 100 m from the antipode the result was off by
tens of metres.
---
 src/pymap3d/nvector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/nvector.py b/src/pymap3d/nvector.py
index 3886953..1a180ac 100644
--- a/src/pymap3d/nvector.py
+++ b/src/pymap3d/nvector.py
@@ -11,7 +11,7 @@ The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
 from __future__ import annotations
 
 from ._typing import FloatLike
-from .mathfun import acos, atan2, cos, degrees, hypot, radians, sin, sqrt
+from .mathfun import atan2, cos, degrees, hypot, radians, sin, sqrt
 from .ecef import geodetic2ecef, ecef2geodetic
 from .ellipsoid import Ellipsoid
 
@@ -204,11 +204,11 @@ def nvector_interpolate(n1_1, n1_2, n1_3, n2_1, n2_2, n2_3, fraction: float) ->
     ni_1, ni_2, ni_3 : float
         Components of interpolated n-vector.
     """
+    cx, cy, cz = _cross3(n1_1, n1_2, n1_3, n2_1, n2_2, n2_3)
     dot = _dot3(n1_1, n1_2, n1_3, n2_1, n2_2, n2_3)
-    # clamp to [-1, 1] for safety
-    dot = max(-1.0, min(1.0, dot))
 
-    omega = acos(dot)
+    # not by acos, which loses half the digits near 0 and pi
+    omega = atan2(sqrt(cx * cx + cy * cy + cz * cz), dot)
 
     # For very small angles, fall back to normalized linear interpolation
     if abs(omega) < 1e-10:
-- 
2.43.0


From d27e2ec76e3a2c864ab2350c5747fdef1aaade80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 39/51] fix: anglesep_meeus keeps its precision near antipodal
 points

asin(sqrt(h)) with h close to 1 was wrong by up to 1e-8 rad.
---
 src/pymap3d/haversine.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/haversine.py b/src/pymap3d/haversine.py
index 101a817..0710da6 100644
--- a/src/pymap3d/haversine.py
+++ b/src/pymap3d/haversine.py
@@ -18,7 +18,7 @@ try:
 except ImportError:
     pass
 
-from .mathfun import asin, cos, degrees, minimum, radians, sin, sqrt
+from .mathfun import atan2, cos, degrees, radians, sin, sqrt
 
 __all__ = ["anglesep", "anglesep_meeus", "haversine"]
 
@@ -65,9 +65,12 @@ def anglesep_meeus(
         lon1 = radians(lon1)
         lat1 = radians(lat1)
 
-    h = haversine(lat0 - lat1) + cos(lat0) * cos(lat1) * haversine(lon0 - lon1)
-    # round-off may exceed 1 for antipodal points
-    sep_rad = 2 * asin(sqrt(minimum(h, 1.0)))
+    c = cos(lat0) * cos(lat1)
+    h = haversine(lat0 - lat1) + c * haversine(lon0 - lon1)
+    # 1 - h, without the digits the difference loses near antipodal points
+    g = haversine(lat0 + lat1) + c * cos((lon0 - lon1) / 2.0) ** 2
+    # abs() for round-off below zero
+    sep_rad = 2 * atan2(sqrt(abs(h)), sqrt(abs(g)))
 
     return degrees(sep_rad) if deg else sep_rad
 
-- 
2.43.0


From 0bab0d4b3ac0279aa2d7fa3cd3d996859967b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 40/51] fix: geodetic2conformal keeps its precision near the
 north pole

1 - sin(lat) has no digits left within 1e-8 rad of the pole (errors up to
2e-8 rad, 10 cm).
---
 src/pymap3d/latitude.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index fd3fa44..d53fc0a 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -364,11 +364,11 @@ def geodetic2conformal(geodetic_lat: FloatLike, ell: Ellipsoid | None = None, de
     e = ell.eccentricity
     f1 = 1 - e * sin(geodetic_lat)
     f2 = 1 + e * sin(geodetic_lat)
-    f3 = 1 - sin(geodetic_lat)
-    f4 = 1 + sin(geodetic_lat)
+    # half the colatitude from the other pole: 1 - sin() loses all digits near +90
+    f3 = pi / 4 + geodetic_lat / 2
 
-    #  atan2 since f3 is zero at +90
-    conformal_lat = 2 * atan2(sqrt(f4 * ((f1 / f2) ** e)), sqrt(f3)) - (pi / 2)
+    #  atan2 since cos(f3) is zero at +90
+    conformal_lat = 2 * atan2(sin(f3) * (f1 / f2) ** (e / 2), cos(f3)) - (pi / 2)
 
     return degrees(conformal_lat) if deg else conformal_lat
 
-- 
2.43.0


From 3b43e195696610ebb6f94b85fb3480ade9d28698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 41/51] fix: authalic radius of nearly spherical ellipsoids

log((1 + e) / (1 - e)) loses its digits for small eccentricities; the radius
was off by millimetres.
---
 src/pymap3d/rsphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/rsphere.py b/src/pymap3d/rsphere.py
index 925e668..159fbda 100644
--- a/src/pymap3d/rsphere.py
+++ b/src/pymap3d/rsphere.py
@@ -6,7 +6,7 @@ from . import rcurve
 
 from ._typing import FloatLike
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import cos, degrees, log, radians, sin, sqrt
+from .mathfun import atanh, cos, degrees, radians, sin, sqrt
 from .vincenty import vdist
 
 __all__ = [
@@ -62,7 +62,7 @@ def authalic(ell: Ellipsoid | None = None) -> float:
     if e > 0:
         f1 = ell.semimajor_axis**2 / 2
         f2 = (1 - e**2) / (2 * e)
-        f3 = log((1 + e) / (1 - e))
+        f3 = 2 * atanh(e)
         return sqrt(f1 * (1 + f2 * f3))
     else:
         return ell.semimajor_axis
-- 
2.43.0


From 0281ebb8c238f901bc585de572bf58e66bf788a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:14 +0000
Subject: [PATCH 42/51] fix: return new arrays from enu2dca, dca2enu and the
 spherical conversions in radians

The component that is passed through unchanged was the caller's own array, so
that working on the result in place changed the argument.
---
 src/pymap3d/dca.py       | 6 ++++--
 src/pymap3d/spherical.py | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/dca.py b/src/pymap3d/dca.py
index 0dce8ce..5cda353 100644
--- a/src/pymap3d/dca.py
+++ b/src/pymap3d/dca.py
@@ -55,7 +55,8 @@ def enu2dca(e: FloatLike, n: FloatLike, u: FloatLike, heading: FloatLike, deg: b
     dr = e * sin(heading) + n * cos(heading)
     cr = -e * cos(heading) + n * sin(heading)
 
-    return dr, cr, u
+    # a new array, not the caller's own
+    return dr, cr, u * 1
 
 
 def dca2enu(dr: FloatLike, cr: FloatLike, above: FloatLike, heading: FloatLike, deg: bool = True):
@@ -69,7 +70,8 @@ def dca2enu(dr: FloatLike, cr: FloatLike, above: FloatLike, heading: FloatLike,
     e = dr * sin(heading) - cr * cos(heading)
     n = dr * cos(heading) + cr * sin(heading)
 
-    return e, n, above
+    # a new array, not the caller's own
+    return e, n, above * 1
 
 
 def dca2ned(dr: FloatLike, cr: FloatLike, above: FloatLike, heading: FloatLike, deg: bool = True):
diff --git a/src/pymap3d/spherical.py b/src/pymap3d/spherical.py
index 3f06916..f55d3b2 100644
--- a/src/pymap3d/spherical.py
+++ b/src/pymap3d/spherical.py
@@ -87,6 +87,8 @@ def geodetic2spherical(
     if deg:
         slat = degrees(slat)
         lon = degrees(lon)
+    else:
+        lon = lon * 1  # a new array, not the caller's own
 
     return slat, lon, radius
 
@@ -159,5 +161,7 @@ def spherical2geodetic(
     if deg:
         glat = degrees(glat)
         lon = degrees(lon)
+    else:
+        lon = lon * 1  # a new array, not the caller's own
 
     return glat, lon, alt
-- 
2.43.0


From ff9ffd298cbf2c6e11f3bba92debbac06731ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:01 +0000
Subject: [PATCH 43/51] fix: inertial conversions keep axes of length one

Results lost them, so that eci2aer combined columns of positions with columns
of observers to a full table.
---
 src/pymap3d/eci.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index a4e089f..8684a0d 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -397,6 +397,7 @@ def _apply_rotation(rotation, x, y, z):
     if "numpy" not in sys.modules:
         return matvec3(rotation, (x, y, z))
 
+    shape = numpy.shape(x)
     x = numpy.atleast_1d(x)
     y = numpy.atleast_1d(y)
     z = numpy.atleast_1d(z)
@@ -410,9 +411,9 @@ def _apply_rotation(rotation, x, y, z):
         vout[i, :] = matvec3(rotation, tuple(vin[i, :]))
 
     return (
-        vout[:, 0].reshape(x.shape),
-        vout[:, 1].reshape(y.shape),
-        vout[:, 2].reshape(z.shape),
+        vout[:, 0].reshape(shape),
+        vout[:, 1].reshape(shape),
+        vout[:, 2].reshape(shape),
     )
 
 
@@ -435,6 +436,7 @@ def _apply_state_rotation(
             rotation, rotation_rate, x, y, z, vx, vy, vz, inverse=inverse
         )
 
+    shape = numpy.shape(x)
     x = numpy.atleast_1d(x)
     y = numpy.atleast_1d(y)
     z = numpy.atleast_1d(z)
@@ -462,12 +464,12 @@ def _apply_state_rotation(
         vel_out[i, :] = state[3:]
 
     return (
-        pos_out[:, 0].reshape(x.shape),
-        pos_out[:, 1].reshape(y.shape),
-        pos_out[:, 2].reshape(z.shape),
-        vel_out[:, 0].reshape(vx.shape),
-        vel_out[:, 1].reshape(vy.shape),
-        vel_out[:, 2].reshape(vz.shape),
+        pos_out[:, 0].reshape(shape),
+        pos_out[:, 1].reshape(shape),
+        pos_out[:, 2].reshape(shape),
+        vel_out[:, 0].reshape(shape),
+        vel_out[:, 1].reshape(shape),
+        vel_out[:, 2].reshape(shape),
     )
 
 
@@ -505,8 +507,8 @@ def _squeeze_xyz(x, y, z):
     """Preserve scalar inputs while supporting array outputs."""
 
     try:
-        return x.squeeze()[()], y.squeeze()[()], z.squeeze()[()]
-    except AttributeError:
+        return x[()], y[()], z[()]
+    except TypeError:
         return x, y, z
 
 
@@ -515,12 +517,12 @@ def _squeeze_state(x, y, z, vx, vy, vz):
 
     try:
         return (
-            x.squeeze()[()],
-            y.squeeze()[()],
-            z.squeeze()[()],
-            vx.squeeze()[()],
-            vy.squeeze()[()],
-            vz.squeeze()[()],
+            x[()],
+            y[()],
+            z[()],
+            vx[()],
+            vy[()],
+            vz[()],
         )
-    except AttributeError:
+    except TypeError:
         return x, y, z, vx, vy, vz
-- 
2.43.0


From 58ceb61168b1aedbcae69ced1065888fb248be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:21 +0000
Subject: [PATCH 44/51] fix: loxodromes keep axes of length one

Results of (n, 1) arrays came out as (n,), against whatever they were computed from.
---
 src/pymap3d/lox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index f2a7f38..eef67fe 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -185,8 +185,8 @@ def loxodrome_inverse(
         az12 = degrees(az12) % 360.0
 
     try:
-        return dist.squeeze()[()], az12.squeeze()[()]
-    except AttributeError:
+        return dist[()], az12[()]
+    except TypeError:
         return dist, az12
 
 
@@ -274,8 +274,8 @@ def loxodrome_direct(
         lat2, lon2 = degrees(lat2), degrees(lon2)
 
     try:
-        return lat2.squeeze()[()], lon2.squeeze()[()]
-    except AttributeError:
+        return lat2[()], lon2[()]
+    except TypeError:
         return lat2, lon2
 
 
-- 
2.43.0


From 89b422f500f5705c8bd8e2822137cc556b0c0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:00 +0000
Subject: [PATCH 45/51] fix: inertial conversions accept scalars among arrays
 in either implementation

The built-in model asserted equal shapes, so that geodetic2eci with an array of
longitudes at one latitude failed without Astropy.
---
 src/pymap3d/eci.py | 43 +++++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index 8684a0d..dd548e2 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -242,6 +242,8 @@ def eci2ecef_state(
 def eci2ecef_state_astropy(x, y, z, vx, vy, vz, t: datetime) -> tuple:
     """eci2ecef_state using Astropy."""
 
+    # scalars among arrays
+    x, y, z, vx, vy, vz = numpy.broadcast_arrays(x, y, z, vx, vy, vz)
     gcrs = GCRS(
         CartesianRepresentation(
             x * u.m,
@@ -338,6 +340,8 @@ def ecef2eci_state(
 def ecef2eci_state_astropy(x, y, z, vx, vy, vz, t: datetime) -> tuple:
     """ecef2eci_state using Astropy."""
 
+    # scalars among arrays
+    x, y, z, vx, vy, vz = numpy.broadcast_arrays(x, y, z, vx, vy, vz)
     itrs = ITRS(
         CartesianRepresentation(
             x * u.m,
@@ -397,13 +401,8 @@ def _apply_rotation(rotation, x, y, z):
     if "numpy" not in sys.modules:
         return matvec3(rotation, (x, y, z))
 
-    shape = numpy.shape(x)
-    x = numpy.atleast_1d(x)
-    y = numpy.atleast_1d(y)
-    z = numpy.atleast_1d(z)
-    assert x.shape == y.shape == z.shape, (
-        f"shape mismatch: x: {x.shape}  y: {y.shape}  z: {z.shape}"
-    )
+    # scalars among arrays
+    x, y, z = numpy.broadcast_arrays(x, y, z)
 
     vin = numpy.column_stack((x.ravel(), y.ravel(), z.ravel()))
     vout = numpy.empty((x.size, 3))
@@ -411,9 +410,9 @@ def _apply_rotation(rotation, x, y, z):
         vout[i, :] = matvec3(rotation, tuple(vin[i, :]))
 
     return (
-        vout[:, 0].reshape(shape),
-        vout[:, 1].reshape(shape),
-        vout[:, 2].reshape(shape),
+        vout[:, 0].reshape(x.shape),
+        vout[:, 1].reshape(x.shape),
+        vout[:, 2].reshape(x.shape),
     )
 
 
@@ -436,16 +435,8 @@ def _apply_state_rotation(
             rotation, rotation_rate, x, y, z, vx, vy, vz, inverse=inverse
         )
 
-    shape = numpy.shape(x)
-    x = numpy.atleast_1d(x)
-    y = numpy.atleast_1d(y)
-    z = numpy.atleast_1d(z)
-    vx = numpy.atleast_1d(vx)
-    vy = numpy.atleast_1d(vy)
-    vz = numpy.atleast_1d(vz)
-    assert x.shape == y.shape == z.shape == vx.shape == vy.shape == vz.shape, (
-        "shape mismatch between position and velocity inputs"
-    )
+    # scalars among arrays
+    x, y, z, vx, vy, vz = numpy.broadcast_arrays(x, y, z, vx, vy, vz)
 
     pos_in = numpy.column_stack((x.ravel(), y.ravel(), z.ravel()))
     vel_in = numpy.column_stack((vx.ravel(), vy.ravel(), vz.ravel()))
@@ -464,12 +455,12 @@ def _apply_state_rotation(
         vel_out[i, :] = state[3:]
 
     return (
-        pos_out[:, 0].reshape(shape),
-        pos_out[:, 1].reshape(shape),
-        pos_out[:, 2].reshape(shape),
-        vel_out[:, 0].reshape(shape),
-        vel_out[:, 1].reshape(shape),
-        vel_out[:, 2].reshape(shape),
+        pos_out[:, 0].reshape(x.shape),
+        pos_out[:, 1].reshape(x.shape),
+        pos_out[:, 2].reshape(x.shape),
+        vel_out[:, 0].reshape(x.shape),
+        vel_out[:, 1].reshape(x.shape),
+        vel_out[:, 2].reshape(x.shape),
     )
 
 
-- 
2.43.0


From 3b1a695b94b182dd7d4a0fe304c41c3679339a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:59 +0000
Subject: [PATCH 46/51] fix: rotation rate of the built-in inertial model from
 a longer time step

Over one second the 40 microseconds that Julian dates resolve were 8e-5 of the
rate, a quarter of a metre per second for a geostationary state.
---
 src/pymap3d/earth_orientation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/earth_orientation.py b/src/pymap3d/earth_orientation.py
index 2d48d3d..a9c97e6 100644
--- a/src/pymap3d/earth_orientation.py
+++ b/src/pymap3d/earth_orientation.py
@@ -319,13 +319,14 @@ def eci_to_ecef_matrix_rate(
     delta_ut1: float = 0.0,
     xp: float = 0.0,
     yp: float = 0.0,
-    dt_seconds: float = 0.5,
+    dt_seconds: float = 20.0,
 ):
     """
     Time derivative of the ECI->ECEF rotation matrix.
 
     Uses a central difference over the same Earth-orientation model as
-    ``eci_to_ecef_matrix()``.
+    ``eci_to_ecef_matrix()``. Julian dates resolve 40 microseconds, hence the long
+    time step: both that and the curvature are then about 1e-6 of the rate.
     """
 
     dt = timedelta(seconds=dt_seconds)
-- 
2.43.0


From 58f7fba3f218d714ad838c1dfdee316fc9bdf444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:35 +0000
Subject: [PATCH 47/51] fix: loxodrome_inverse gives azimuths of one turn from
 north in radians too

---
 src/pymap3d/lox.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index eef67fe..3bbb538 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -183,6 +183,8 @@ def loxodrome_inverse(
 
     if deg:
         az12 = degrees(az12) % 360.0
+    else:
+        az12 = az12 % tau
 
     try:
         return dist[()], az12[()]
-- 
2.43.0


From 9e3bdf5f048a9e9b725284036a686133891a2d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:20 +0000
Subject: [PATCH 48/51] fix: unsigned integers are negated as numbers, not
 modulo their size

---
 src/pymap3d/dca.py     | 7 ++++---
 src/pymap3d/ned.py     | 7 ++++---
 src/pymap3d/nwu.py     | 9 +++++----
 src/pymap3d/rsphere.py | 2 +-
 src/pymap3d/sez.py     | 9 +++++----
 5 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/pymap3d/dca.py b/src/pymap3d/dca.py
index 5cda353..89a816d 100644
--- a/src/pymap3d/dca.py
+++ b/src/pymap3d/dca.py
@@ -53,7 +53,7 @@ def enu2dca(e: FloatLike, n: FloatLike, u: FloatLike, heading: FloatLike, deg: b
         heading = radians(heading)
 
     dr = e * sin(heading) + n * cos(heading)
-    cr = -e * cos(heading) + n * sin(heading)
+    cr = n * sin(heading) - e * cos(heading)
 
     # a new array, not the caller's own
     return dr, cr, u * 1
@@ -79,14 +79,15 @@ def dca2ned(dr: FloatLike, cr: FloatLike, above: FloatLike, heading: FloatLike,
     Converts DCA (Downrange, Crossrange, Above) coordinates to NED (North, East, Down).
     """
     e, n, u = dca2enu(dr, cr, above, heading, deg=deg)
-    return n, e, -u
+    # by a float: unsigned integers have no negative
+    return n, e, -1.0 * u
 
 
 def ned2dca(n: FloatLike, e: FloatLike, d: FloatLike, heading: FloatLike, deg: bool = True):
     """
     Converts NED (North, East, Down) coordinates to DCA (Downrange, Crossrange, Above).
     """
-    dr, cr, above = enu2dca(e, n, -d, heading, deg=deg)
+    dr, cr, above = enu2dca(e, n, -1.0 * d, heading, deg=deg)
     return dr, cr, above
 
 
diff --git a/src/pymap3d/ned.py b/src/pymap3d/ned.py
index a95a16d..fefde2f 100644
--- a/src/pymap3d/ned.py
+++ b/src/pymap3d/ned.py
@@ -82,7 +82,8 @@ def ned2aer(n: FloatLike, e: FloatLike, d: FloatLike, deg: bool = True) -> tuple
          slant range [meters]
     """
 
-    return enu2aer(e, n, -d, deg=deg)
+    # by a float: unsigned integers have no negative
+    return enu2aer(e, n, -1.0 * d, deg=deg)
 
 
 def ned2geodetic(
@@ -128,7 +129,7 @@ def ned2geodetic(
     h : array-like float
         target altitude above geodetic ellipsoid (meters)
     """
-    x, y, z = enu2ecef(e, n, -d, lat0, lon0, h0, ell, deg=deg)
+    x, y, z = enu2ecef(e, n, -1.0 * d, lat0, lon0, h0, ell, deg=deg)
 
     return ecef2geodetic(x, y, z, ell, deg=deg)
 
@@ -176,7 +177,7 @@ def ned2ecef(
     z : array-like float
         ECEF z coordinate (meters)
     """
-    return enu2ecef(e, n, -d, lat0, lon0, h0, ell, deg=deg)
+    return enu2ecef(e, n, -1.0 * d, lat0, lon0, h0, ell, deg=deg)
 
 
 def ecef2ned(
diff --git a/src/pymap3d/nwu.py b/src/pymap3d/nwu.py
index 44a58a2..9a11a71 100644
--- a/src/pymap3d/nwu.py
+++ b/src/pymap3d/nwu.py
@@ -35,7 +35,8 @@ def nwu2aer(n, w, u, deg: bool = True) -> tuple:
     Convert North, West, Up to azimuth, elevation, range.
     """
 
-    return enu2aer(-w, n, u, deg=deg)
+    # by a float: unsigned integers have no negative
+    return enu2aer(-1.0 * w, n, u, deg=deg)
 
 
 def nwu2geodetic(
@@ -52,7 +53,7 @@ def nwu2geodetic(
     Convert North, West, Up to target geodetic coordinates.
     """
 
-    return enu2geodetic(-w, n, u, lat0, lon0, h0, ell, deg=deg)
+    return enu2geodetic(-1.0 * w, n, u, lat0, lon0, h0, ell, deg=deg)
 
 
 def nwu2ecef(
@@ -69,7 +70,7 @@ def nwu2ecef(
     Convert North, West, Up to target ECEF coordinates.
     """
 
-    return enu2ecef(-w, n, u, lat0, lon0, h0, ell, deg=deg)
+    return enu2ecef(-1.0 * w, n, u, lat0, lon0, h0, ell, deg=deg)
 
 
 def nwu2ecefv(n, w, u, lat0, lon0, deg: bool = True) -> tuple:
@@ -77,7 +78,7 @@ def nwu2ecefv(n, w, u, lat0, lon0, deg: bool = True) -> tuple:
     Convert an NWU vector into ECEF coordinates.
     """
 
-    return enu2ecefv(-w, n, u, lat0, lon0, deg=deg)
+    return enu2ecefv(-1.0 * w, n, u, lat0, lon0, deg=deg)
 
 
 def ecef2nwu(
diff --git a/src/pymap3d/rsphere.py b/src/pymap3d/rsphere.py
index 159fbda..38df401 100644
--- a/src/pymap3d/rsphere.py
+++ b/src/pymap3d/rsphere.py
@@ -122,7 +122,7 @@ def euler(
             degrees(lon2),
         )
 
-    latmid = lat1 + (lat2 - lat1) / 2  # compute the midpoint
+    latmid = lat1 / 2 + lat2 / 2  # compute the midpoint
 
     # compute azimuth
     az = vdist(lat1, lon1, lat2, lon2, ell=ell)[1]
diff --git a/src/pymap3d/sez.py b/src/pymap3d/sez.py
index acc1f8a..17def92 100644
--- a/src/pymap3d/sez.py
+++ b/src/pymap3d/sez.py
@@ -35,7 +35,8 @@ def sez2aer(s, e, z, deg: bool = True) -> tuple:
     Convert South, East, Zenith to azimuth, elevation, range.
     """
 
-    return enu2aer(e, -s, z, deg=deg)
+    # by a float: unsigned integers have no negative
+    return enu2aer(e, -1.0 * s, z, deg=deg)
 
 
 def sez2geodetic(
@@ -52,7 +53,7 @@ def sez2geodetic(
     Convert South, East, Zenith to target geodetic coordinates.
     """
 
-    return enu2geodetic(e, -s, z, lat0, lon0, h0, ell, deg=deg)
+    return enu2geodetic(e, -1.0 * s, z, lat0, lon0, h0, ell, deg=deg)
 
 
 def sez2ecef(
@@ -69,7 +70,7 @@ def sez2ecef(
     Convert South, East, Zenith to target ECEF coordinates.
     """
 
-    return enu2ecef(e, -s, z, lat0, lon0, h0, ell, deg=deg)
+    return enu2ecef(e, -1.0 * s, z, lat0, lon0, h0, ell, deg=deg)
 
 
 def sez2ecefv(s, e, z, lat0, lon0, deg: bool = True) -> tuple:
@@ -77,7 +78,7 @@ def sez2ecefv(s, e, z, lat0, lon0, deg: bool = True) -> tuple:
     Convert a SEZ vector into ECEF coordinates.
     """
 
-    return enu2ecefv(e, -s, z, lat0, lon0, deg=deg)
+    return enu2ecefv(e, -1.0 * s, z, lat0, lon0, deg=deg)
 
 
 def ecef2sez(
-- 
2.43.0


From d1e38d04a4b36c0ac2d6aaeb28a7eed74f6be30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 49/51] fix: ecef2geodetic is as exact at the altitude of
 satellites as near the surface

---
 src/pymap3d/ecef.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 64389f4..30e9a07 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -185,6 +185,25 @@ def ecef2geodetic(
 
         return lat, alt
 
+    def _refine(rho, z, Beta):
+        """
+        eqn. 13 is one step of Newton's method, which is enough near the surface only:
+        metres are left at the altitude of satellites.
+        Deep inside and beyond a thousand radii the closed form is left as it is.
+        """
+        for _ in range(3):
+            sinBeta, cosBeta = sin(Beta), cos(Beta)
+            Beta = Beta - (
+                ell.semimajor_axis * rho * sinBeta
+                - ell.semiminor_axis * z * cosBeta
+                - E**2 * sinBeta * cosBeta
+            ) / abs(
+                ell.semimajor_axis * rho * cosBeta
+                + ell.semiminor_axis * z * sinBeta
+                - E**2 * (cosBeta**2 - sinBeta**2)
+            )
+        return Beta
+
     def _beta_numpy(x, y, z) -> tuple:
         """using Numpy"""
         Beta = empty_like(r)
@@ -198,6 +217,8 @@ def ecef2geodetic(
             ell.semimajor_axis * huE[~ibad] * 1 / cos(Beta[~ibad])
             - E**2 * cos(Beta[~ibad])
         )
+        i = ~ibad & (0.5 * ell.semimajor_axis < r) & (r < 1e3 * ell.semimajor_axis)
+        Beta[i] = _refine(hxy[i], z[i], Beta[i])
         iz = ibad & isclose(z, 0)
         i1 = ibad & ~iz & (z > 0)
         i2 = ibad & ~iz & ~i1
@@ -222,6 +243,8 @@ def ecef2geodetic(
                 (ell.semiminor_axis * u - ell.semimajor_axis * huE + E**2)
                 * sin(Beta)
             ) / (ell.semimajor_axis * huE * 1 / cos(Beta) - E**2 * cos(Beta))
+            if 0.5 * ell.semimajor_axis < r < 1e3 * ell.semimajor_axis:
+                Beta = _refine(float(hxy), z, Beta)
         except ArithmeticError:
             if isclose(z, 0):
                 Beta = 0
-- 
2.43.0


From 6b9ef35d3261f4a4ba79ba43b8ae468b8b6d27e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 50/51] fix: geocentric2geodetic above the surface takes the
 radius of curvature at the geodetic latitude

---
 src/pymap3d/latitude.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index d53fc0a..eafb55a 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -176,10 +176,13 @@ def geocentric2geodetic(geocentric_lat: FloatLike, alt_m, ell: Ellipsoid | None
     if deg:
         geocentric_lat = radians(geocentric_lat)
 
-    r = rcurve.transverse(geocentric_lat, ell, deg=False)
-    geodetic_lat = atan2(
-        sin(geocentric_lat) / (1 - ell.eccentricity**2 * (r / (r + alt_m))), cos(geocentric_lat)
-    )
+    # the radius of curvature is that at the geodetic latitude
+    geodetic_lat = geocentric_lat
+    for _ in range(6):
+        r = rcurve.transverse(geodetic_lat, ell, deg=False)
+        geodetic_lat = atan2(
+            sin(geocentric_lat) / (1 - ell.eccentricity**2 * (r / (r + alt_m))), cos(geocentric_lat)
+        )
 
     return degrees(geodetic_lat) if deg else geodetic_lat
 
-- 
2.43.0


From b78c5b1b7c37e5aff33da1043f90c648ed8d923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 51/51] fix: rsphere.eqavol is the radius of the sphere of
 equal volume, not its series to second order

---
 src/pymap3d/rsphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/rsphere.py b/src/pymap3d/rsphere.py
index 38df401..5167dd5 100644
--- a/src/pymap3d/rsphere.py
+++ b/src/pymap3d/rsphere.py
@@ -38,7 +38,7 @@ def eqavol(ell: Ellipsoid | None = None) -> float:
 
     f = ell.flattening
 
-    return ell.semimajor_axis * (1 - f / 3 - f**2 / 9)
+    return ell.semimajor_axis * (1 - f) ** (1 / 3)
 
 
 def authalic(ell: Ellipsoid | None = None) -> float:
-- 
2.43.0

