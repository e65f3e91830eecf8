From 896e85d21d4c68a2a5a0805084fe4ba0ca4e3509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 01/42] fix: mean anomaly at transit when sin_omega_peri is
 exactly -1

---
 src/jaxoplanet/orbits/keplerian.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index 77fc96a..abb6065 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -321,10 +321,9 @@ class OrbitalBody(eqx.Module):
         else:
             assert self.sin_omega_peri is not None
             assert self.cos_omega_peri is not None
-            opsw = 1 + self.sin_omega_peri
-            E0 = 2 * jnpu.arctan2(
-                jnpu.sqrt(1 - self.eccentricity) * self.cos_omega_peri,
-                jnpu.sqrt(1 + self.eccentricity) * opsw,
+            E0 = jnpu.arctan2(
+                jnpu.sqrt(1 - self.eccentricity**2) * self.cos_omega_peri,
+                self.eccentricity + self.sin_omega_peri,
             )
             M0 = E0 - self.eccentricity * jnpu.sin(E0)
 
-- 
2.43.0


From dbe6c556de043c20dc10156d7cb6647f59bd8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 02/42] fix: body velocities when a semi-amplitude is stored on
 the body

---
 src/jaxoplanet/orbits/keplerian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index abb6065..4558df0 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -471,6 +471,8 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``R_sun/day``.
         """
+        if semiamplitude is None and self.mass is not None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.central.mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
@@ -514,6 +516,8 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``M_sun/day``.
         """
+        if semiamplitude is None and self.mass is not None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.total_mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
-- 
2.43.0


From c36acf1160a460d803102d8b412674566552e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 03/42] fix: convert timing variations and transit times given
 in other time units

---
 src/jaxoplanet/orbits/ttv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index c4f9864..3476e1e 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -10,7 +10,7 @@ from jaxoplanet.units import unit_registry as ureg
 def ensure_quantity(x, unit):
     """Convert x to a JAX array with the given unit if it isn’t already a quantity."""
     if hasattr(x, "to"):
-        return x
+        return x.to(unit)
     else:
         return jnp.asarray(x) * unit
 
-- 
2.43.0


From 36faaac9ca817ce3898accd65096d9eeaa9de24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 04/42] fix: timing variations of several planets with a shared
 reference time or period

---
 src/jaxoplanet/orbits/ttv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index 3476e1e..6670ba0 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -193,9 +193,10 @@ class TTVOrbit(TransitOrbit):
                 self.transit_inds = tuple(jnp.arange(ttv.shape[0]) for ttv in self.ttvs)
             else:
                 self.transit_inds = tuple(transit_inds)
-            self.t0 = jnp.atleast_1d(time_transit.magnitude)
+            n_planets = len(self.ttvs)
+            self.t0 = jnp.broadcast_to(time_transit.magnitude, (n_planets,))
             # For ttvs mode, period is required and used directly:
-            self.ttv_period = jnp.atleast_1d(period.magnitude)
+            self.ttv_period = jnp.broadcast_to(period.magnitude, (n_planets,))
             # Reconstruct transit_times: t0 + period * inds + ttvs
             transit_times_list = []
             for ttv, inds in zip(self.ttvs, self.transit_inds, strict=False):
-- 
2.43.0


From 9ced52248c2fa9d2b611ddcc6771694cdbddc3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 05/42] fix: negative in_axes when mapping over bodies of
 different structure

---
 src/jaxoplanet/object_stack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jaxoplanet/object_stack.py b/src/jaxoplanet/object_stack.py
index 6668edf..cc588db 100644
--- a/src/jaxoplanet/object_stack.py
+++ b/src/jaxoplanet/object_stack.py
@@ -130,6 +130,8 @@ def index_helper(n, arg, axis):
     if axis is None:
         return arg
     else:
+        if axis < 0:
+            axis += arg.ndim
         idx = (slice(None),) * axis + (n,)
         return arg[idx]
 
-- 
2.43.0


From 231f2b9acf32c487c5879191340a21505612dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 06/42] fix: total occultation by a concentric disc of the same
 size

---
 src/jaxoplanet/core/limb_dark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index f6bb92b..afc02f4 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -74,7 +74,8 @@ def solution_vector(l_max: int, order: int = 10) -> Callable[[Array, Array], Arr
         if l_max >= 1:
             P: Array = p_integral(order, l_max, b_, r, b2, r2, kappa0)
             P = jnp.where(cond, jnp.zeros_like(P), P)
-            s.append(-P[:1] - 2 * (kappa1 - jnp.pi) / 3)
+            s1: Array = -P[:1] - 2 * (kappa1 - jnp.pi) / 3
+            s.append(jnp.where(full_occ, jnp.zeros_like(s1), s1))
             if l_max >= 2:
                 s.append(s2[None])  # type: ignore
             if l_max >= 3:
-- 
2.43.0


From 885a4a48baacb723697f122b6d96f4947bca4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 07/42] fix: points of the occultor's limb that lie on the
 star's limb

---
 src/jaxoplanet/core/limb_dark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index afc02f4..48ea9be 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -168,7 +168,7 @@ def p_integral(
         z2 = 1 - omz2
         m = jnp.less(z2, 10 * jnp.finfo(omz2.dtype).eps)
         z2 = jnp.where(m, jnp.ones_like(z2), z2)
-        z3 = z2 * zero_safe_sqrt(z2)
+        z3 = jnp.where(m, jnp.zeros_like(z2), z2 * zero_safe_sqrt(z2))
         cond = jnp.less(omz2, 10 * jnp.finfo(omz2.dtype).eps)
         omz2 = jnp.where(cond, jnp.ones_like(z2), omz2)
         result = 2 * r * (r - b * c) * (1 - z3) / (3 * omz2)
-- 
2.43.0


From 0fa9f99f7da833491e5e1d9b49565e93b5c1110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 08/42] fix: amplitude of a uniform or limb-darkened star
 crossed by a planet

---
 src/jaxoplanet/light_curves/emission.py | 1 +
 src/jaxoplanet/starry/light_curves.py   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index f97da38..93cb222 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -41,6 +41,7 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
         lc_func = partial(_limb_dark_light_curve, system.central_surface.u, order=order)
         lc = lc_func(b.magnitude, r.magnitude)
         lc = jnp.where(z > 0, lc, 0.0).sum(0) + 1
+        lc = system.central_surface.amplitude * lc
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index c8ac0b8..3bf514c 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -91,7 +91,7 @@ def surface_light_curve(
 
             lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
             lc = lc_func(b, r)
-            return 1.0 + jnp.where(b_occ, lc, 0)
+            return surface.amplitude * (1.0 + jnp.where(b_occ, lc, 0))
 
         else:
             theta_z = jnp.arctan2(x, y)
-- 
2.43.0


From 5879dad48723e134923f06aeb40d6bd8ab84c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 09/42] fix: keyword arguments of light curves integrated over
 an exposure

---
 src/jaxoplanet/light_curves/transforms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 6c2a0e9..7284055 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -3,7 +3,7 @@
 
 __all__ = ["integrate", "interpolate"]
 
-from functools import wraps
+from functools import partial, wraps
 from typing import Any
 
 import jax
@@ -106,9 +106,12 @@ def integrate(
                 "on GitHub demonstrating the problem"
             )
 
-        f = lu.wrap_init(jax.vmap(func, in_axes=(0,) + (None,) * len(args)))
+        # 'vmap' would map over keyword arguments, so these are bound beforehand
+        f = lu.wrap_init(
+            jax.vmap(partial(func, **kwargs), in_axes=(0,) + (None,) * len(args))
+        )
         f = apply_exposure_time_integration(f, stencil, dt)  # type: ignore
-        return f.call_wrapped(time, args, kwargs)  # type: ignore
+        return f.call_wrapped(time, args, {})  # type: ignore
 
     return wrapped
 
-- 
2.43.0


From f508fb5aa23dcf04578b6f5e7a161507407c74de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 10/42] fix: exposure integration of light curves with units or
 with several output axes

---
 src/jaxoplanet/light_curves/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 7284055..0234be6 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -119,7 +119,8 @@ def integrate(
 @lu.transformation  # type: ignore
 def apply_exposure_time_integration(stencil, dt, time, args, kwargs):
     result = yield (time + dt,) + args, kwargs
-    yield jnpu.dot(stencil, result)
+    weights = stencil.reshape((-1,) + (1,) * (jnpu.ndim(result) - 1))
+    yield jnpu.sum(weights * result, axis=0)
 
 
 @units.quantity_input(period=ureg.day, time_transit=ureg.day, duration=ureg.day)
-- 
2.43.0


From 4106cb49a8f8410921eb0ef41654922dcb87b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 11/42] fix: interpolated light curves next to the ends of a
 window that spans the period

---
 src/jaxoplanet/light_curves/transforms.py | 24 ++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 0234be6..b5fe1c4 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -177,6 +177,19 @@ def interpolate(
         flux_magnitude = flux_grid
         flux_units = None
 
+    # Join the last point of the grid to the first point, one period later
+    interp_times = time_grid.magnitude
+    interp_times = jnp.concatenate(
+        (
+            jnp.minimum(interp_times[-1:] - period.magnitude, interp_times[:1]),
+            interp_times,
+            jnp.maximum(interp_times[:1] + period.magnitude, interp_times[-1:]),
+        )
+    )
+    interp_fluxes = jnp.concatenate(
+        (flux_magnitude[-1:], flux_magnitude, flux_magnitude[:1])
+    )
+
     @wraps(func)
     @units.quantity_input(time=ureg.d)
     @vectorize
@@ -184,17 +197,10 @@ def interpolate(
         del args, kwargs
         time_wrapped = (
             jnpu.mod(time - time_transit + 0.5 * period, period)
-            + 0.5 * period
+            - 0.5 * period
             + time_transit
         )
-        flux = jnp.interp(
-            time_wrapped.magnitude,
-            time_grid.magnitude,
-            flux_magnitude,
-            left=flux_magnitude[0],
-            right=flux_magnitude[-1],
-            period=period.magnitude,
-        )
+        flux = jnp.interp(time_wrapped.magnitude, interp_times, interp_fluxes)
         if flux_units is None:
             return flux
         else:
-- 
2.43.0


From 298dc60edf5959d16e7851c88a1b8fae421a5764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 12/42] fix: degree of the multiplier in
 polynomial_product_matrix

A vector of (deg + 1)^2 coefficients has degree deg, not deg + 1: the matrix had the
wrong shape and repeated the last coefficient for the terms of the missing degree.
---
 src/jaxoplanet/starry/core/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/polynomials.py b/src/jaxoplanet/starry/core/polynomials.py
index 26acbad..336aeab 100644
--- a/src/jaxoplanet/starry/core/polynomials.py
+++ b/src/jaxoplanet/starry/core/polynomials.py
@@ -180,7 +180,7 @@ def polynomial_product_matrix(p, degree):
         Array: The polynomial product matrix.
     """
     p = jnp.array(p)
-    deg_p = int(np.floor(np.sqrt(len(p))))
+    deg_p = int(np.floor(np.sqrt(len(p)))) - 1
     M = jnp.zeros(
         ((deg_p + degree + 1) * (deg_p + degree + 1), (degree + 1) * (degree + 1))
     )
-- 
2.43.0


From e746113750bbe1bb4984589b3b42131fdd9e4947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 13/42] fix: coefficients of a higher degree than the map or
 polynomial are zero

Indexing past the end of a dense vector was clamped to its last element, so for example
Ylm({(0, 0): 1.0})[(3, 0)] was 1.0.
---
 src/jaxoplanet/starry/core/polynomials.py | 3 ++-
 src/jaxoplanet/starry/ylm.py              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/core/polynomials.py b/src/jaxoplanet/starry/core/polynomials.py
index 336aeab..ab947fe 100644
--- a/src/jaxoplanet/starry/core/polynomials.py
+++ b/src/jaxoplanet/starry/core/polynomials.py
@@ -134,7 +134,8 @@ class Pijk(eqx.Module):
 
     def __getitem__(self, key) -> Array:
         assert isinstance(key, tuple)
-        return self.todense()[self.index(*key)]
+        # terms of a higher degree than the polynomial's are absent
+        return self.todense().at[self.index(*key)].get(mode="fill", fill_value=0)
 
 
 def _add(u: Pijk, v: Pijk) -> Pijk:
diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index b85cdb2..5218795 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -157,7 +157,8 @@ class Ylm(eqx.Module):
 
     def __getitem__(self, key) -> Array:
         assert isinstance(key, tuple)
-        return self.todense()[Ylm.index(*key)]
+        # terms of a higher degree than the map's are absent
+        return self.todense().at[Ylm.index(*key)].get(mode="fill", fill_value=0)
 
     @classmethod
     def from_limb_darkening(cls, u: Array) -> "Ylm":
-- 
2.43.0


From b6e670c43b9f7bf755f44c57c48bb76df0607d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 14/42] fix: product of two spherical harmonic maps

The product rule needs the coupling coefficient of the degrees alone (l1 l2 l3; 0 0 0) as
well, and holds for complex harmonics: the coefficients of real maps are converted before
and after. The product now represents the pointwise product of the two functions.
---
 src/jaxoplanet/starry/ylm.py | 45 +++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index 5218795..49926c8 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -180,28 +180,33 @@ def _mul(f: Ylm, g: Ylm) -> Ylm:
 
     https://github.com/moble/spherical/blob/0aa81c309cac70b90f8dfb743ce35d2cc9ae6dee/
     spherical/multiplication.py
+
+    The product rule holds for complex spherical harmonics, hence the conversions.
     """
     ellmax_f = f.deg
     ellmax_g = g.deg
     ellmax_fg = ellmax_f + ellmax_g
+    f_data = _real_to_complex(f.data)
+    g_data = _real_to_complex(g.data)
     fg = defaultdict(lambda *_: 0.0)
+    s_calculator = Wigner3jCalculator(ellmax_f, ellmax_g)
     m_calculator = Wigner3jCalculator(ellmax_f, ellmax_g)
     for ell1 in range(ellmax_f + 1):
         sqrt1 = math.sqrt((2 * ell1 + 1) / (4 * math.pi))
         for m1 in range(-ell1, ell1 + 1):
             idx1 = (ell1, m1)
-            if idx1 not in f.data:
+            if idx1 not in f_data:
                 continue
-            sum1 = sqrt1 * f.data[idx1]
+            sum1 = sqrt1 * f_data[idx1]
             for ell2 in range(ellmax_g + 1):
                 sqrt2 = math.sqrt(2 * ell2 + 1)
-                # w3j_s = s_calculator.calculate(ell1, ell2, s_f, s_g)
+                w3j_s = s_calculator.calculate(ell1, ell2, 0, 0)
                 for m2 in range(-ell2, ell2 + 1):
                     idx2 = (ell2, m2)
-                    if idx2 not in g.data:
+                    if idx2 not in g_data:
                         continue
                     w3j_m = m_calculator.calculate(ell1, ell2, m1, m2)
-                    sum2 = sqrt2 * g.data[idx2]
+                    sum2 = sqrt2 * g_data[idx2]
                     m3 = m1 + m2
                     for ell3 in range(
                         max(abs(m3), abs(ell1 - ell2)), min(ell1 + ell2, ellmax_fg) + 1
@@ -212,12 +217,40 @@ def _mul(f: Ylm, g: Ylm) -> Ylm:
                             (
                                 math.pow(-1, ell1 + ell2 + ell3 + m3)
                                 * math.sqrt(2 * ell3 + 1)
+                                * w3j_s[ell3]  # Wigner3j(ell1, ell2, ell3, 0, 0, 0)
                                 * w3j_m[ell3]  # Wigner3j(ell1, ell2, ell3, m1, m2, -m3)
                             )
                             * sum1
                             * sum2
                         )
-    return Ylm(fg)
+    return Ylm(_complex_to_real(fg))
+
+
+def _real_to_complex(data: Mapping[tuple[int, int], Array]) -> dict:
+    """Coefficients of a real function in the basis of complex spherical harmonics."""
+    res = {}
+    for ell, m in data:
+        if m == 0:
+            res[(ell, 0)] = data[(ell, 0)]
+        else:
+            k = abs(m)
+            c = data.get((ell, k), 0.0) - 1j * data.get((ell, -k), 0.0)
+            res[(ell, k)] = (-1) ** k * c / math.sqrt(2)
+            res[(ell, -k)] = jnp.conj(c) / math.sqrt(2)
+    return res
+
+
+def _complex_to_real(data: Mapping[tuple[int, int], Array]) -> dict:
+    """The inverse of `_real_to_complex`."""
+    res = {}
+    for ell, m in data:
+        if m == 0:
+            res[(ell, 0)] = jnp.real(data[(ell, 0)])
+        elif m > 0:
+            c = (-1) ** m * math.sqrt(2) * data[(ell, m)]
+            res[(ell, m)] = jnp.real(c)
+            res[(ell, -m)] = -jnp.imag(c)
+    return res
 
 
 def Bp(ydeg, npts: int = 1000, eps: float = 1e-9, smoothing=None):
-- 
2.43.0


From 369554142ffb1f105c878cc6dbf7250416cfee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 15/42] fix: derivatives and precision of rotations by angles
 close to zero

---
 src/jaxoplanet/starry/core/rotation.py       | 15 ++--------
 src/jaxoplanet/starry/core/s2fft_rotation.py | 31 +++++++++++++-------
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index c819e8d..37cefad 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -3,10 +3,10 @@ from functools import partial
 
 import jax
 import jax.numpy as jnp
-from jax.scipy.spatial.transform import Rotation
 
 from jaxoplanet.starry import utils
 from jaxoplanet.starry.core.s2fft_rotation import (
+    axis_angle_to_euler,
     compute_rotation_matrices as compute_rotation_matrices_s2fft,
     rotate_flms,
 )
@@ -509,20 +509,9 @@ def dot_rz(deg, theta):
 
 
 def fast_direct_left_project(ydeg, inc, obl, theta, theta_z, y):
-
-    def euler(x, y, z, theta):
-        """axis-angle to euler angles"""
-        # the jnp where for theta == 0 is to avoid nans when computing grad
-        axis = jnp.array([jnp.where(theta == 0.0, 1.0, x), y, z])
-        _theta = jnp.where(theta == 0.0, 1.0, theta)
-        axis = axis / jnp.linalg.norm(axis)
-        r = Rotation.from_rotvec(axis * _theta)
-        return jnp.where(theta == 0.0, jnp.array([0.0, 0.0, 0.0]), r.as_euler("zyz"))
-
     _x, _y, _z, angle = full_rotation_axis_angle(inc, obl, theta, theta_z)
 
-    _axis = jnp.array([-_x, -_y, _z])
-    alpha, beta, gamma = euler(*_axis, -angle)
+    alpha, beta, gamma = axis_angle_to_euler(-_x, -_y, _z, -angle)
 
     u = utils.C(ydeg)
     u_dag = jnp.conj(u.T)
diff --git a/src/jaxoplanet/starry/core/s2fft_rotation.py b/src/jaxoplanet/starry/core/s2fft_rotation.py
index 6c2e75f..8ddb845 100644
--- a/src/jaxoplanet/starry/core/s2fft_rotation.py
+++ b/src/jaxoplanet/starry/core/s2fft_rotation.py
@@ -26,7 +26,8 @@ from functools import partial
 
 import jax
 import jax.numpy as jnp
-from jax.scipy.spatial.transform import Rotation
+
+from jaxoplanet.utils import zero_safe_sqrt
 
 
 def _compute_full(dl: jnp.ndarray, beta: float, L: int, el: int) -> jnp.ndarray:
@@ -132,6 +133,23 @@ def _generate_rotate_dls(L: int, beta: float) -> jnp.ndarray:
     return jnp.stack(dls, axis=0)
 
 
+def axis_angle_to_euler(x, y, z, theta):
+    """Euler angles (zyz) of a rotation by an angle about an axis, which doesn't
+    need to be normalized. Unlike the general conversion, this is accurate and
+    differentiable for rotations by (or close to) a zero angle.
+    """
+    rho = zero_safe_sqrt(1.0 * (x**2 + y**2))
+    norm2 = x**2 + y**2 + z**2
+    norm = jnp.sqrt(jnp.where(norm2 == 0.0, 1.0, norm2))
+    c = jnp.cos(theta / 2)
+    s = jnp.sin(theta / 2)
+    half_sum = jnp.arctan2(z / norm * s, c)
+    along_z = rho == 0.0
+    half_diff = jnp.arctan2(jnp.where(along_z, 0.0, x), jnp.where(along_z, 1.0, y))
+    beta = 2 * jnp.arctan2(s * rho / norm, jnp.sqrt(c**2 + (z / norm * s) ** 2))
+    return half_sum + half_diff, beta, half_sum - half_diff
+
+
 def compute_rotation_matrices(deg, x, y, z, theta, homogeneous=False):
 
     def kron(m, n):
@@ -163,16 +181,7 @@ def compute_rotation_matrices(deg, x, y, z, theta, homogeneous=False):
                 res = res.at[m + l, n + l].set(Umn(m, n))
         return res
 
-    def euler(x, y, z, theta):
-        """axis-angle to euler angles"""
-        # the jnp where for theta == 0 is to avoid nans when computing grad
-        axis = jnp.array([jnp.where(theta == 0.0, 1.0, x), y, z])
-        _theta = jnp.where(theta == 0.0, 1.0, theta)
-        axis = axis / jnp.linalg.norm(axis)
-        r = Rotation.from_rotvec(axis * _theta)
-        return jnp.where(theta == 0.0, jnp.array([0.0, 0.0, 0.0]), r.as_euler("zyz"))
-
-    alpha, beta, gamma = euler(x, y, z, theta)
+    alpha, beta, gamma = axis_angle_to_euler(x, y, z, theta)
     dls = _generate_rotate_dls(deg + 1, beta)
     N = jnp.arange(-deg, deg + 1)
     m, mp = jnp.meshgrid(N, N)
-- 
2.43.0


From 9a097deb9cfd40c8b359babf274237cc23aeb973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 16/42] fix: obliquity of pole-on maps and derivatives at zero
 inclination or obliquity

---
 src/jaxoplanet/starry/core/rotation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 37cefad..06402eb 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -157,7 +157,7 @@ def sky_projection_axis_angle(inc: float | None, obl: float | None):
         return 1.0, None, None, inc
 
     elif inc is None:
-        return None, None, 1.0, obl
+        return None, None, 1.0, -obl
 
     else:
         co = jnp.cos(obl / 2)
@@ -208,10 +208,12 @@ def left_project(
     m_theta = -theta if theta is not None else theta
     m_theta_z = -theta_z if theta_z is not None else theta_z
 
-    axis_x, axis_y, axis_z, angle = sky_projection_axis_angle(inc, obl)
+    m_obl = -obl if obl is not None else obl
+
     y = dot_rotation_matrix(ydeg, 1.0, None, None, -0.5 * jnp.pi)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, m_theta)(y)
-    y = dot_rotation_matrix(ydeg, axis_x, axis_y, axis_z, angle)(y)
+    y = dot_rotation_matrix(ydeg, 1.0, None, None, inc)(y)
+    y = dot_rotation_matrix(ydeg, None, None, 1.0, m_obl)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, m_theta_z)(y)
     return y
 
@@ -237,13 +239,11 @@ def right_project(
     Returns:
         Array: rotated spherical harmonic map coefficients
     """
-    axis_x, axis_y, axis_z, angle = sky_projection_axis_angle(inc, obl)
-    m_axis_x = -axis_x if axis_x is not None else axis_x
-    m_axis_y = -axis_y if axis_y is not None else axis_y
-    m_axis_z = -axis_z if axis_z is not None else axis_z
+    m_inc = -inc if inc is not None else inc
 
     y = dot_rotation_matrix(ydeg, None, None, 1.0, theta_z)(y)
-    y = dot_rotation_matrix(ydeg, m_axis_x, m_axis_y, m_axis_z, angle)(y)
+    y = dot_rotation_matrix(ydeg, None, None, 1.0, obl)(y)
+    y = dot_rotation_matrix(ydeg, 1.0, None, None, m_inc)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, theta)(y)
     y = dot_rotation_matrix(ydeg, 1.0, None, None, 0.5 * jnp.pi)(y)
     return y
-- 
2.43.0


From 88e08d25c8ff474b75f96f07de02ba915b78fe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 17/42] fix: latitude and longitude of Surface.intensity, and
 reverse-mode derivatives of intensities

---
 src/jaxoplanet/starry/core/basis.py |  2 +-
 src/jaxoplanet/starry/surface.py    | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/jaxoplanet/starry/core/basis.py b/src/jaxoplanet/starry/core/basis.py
index 3d8e323..20bfcb6 100644
--- a/src/jaxoplanet/starry/core/basis.py
+++ b/src/jaxoplanet/starry/core/basis.py
@@ -369,7 +369,7 @@ def poly_basis(deg):
 
         p = jnp.array(xarr) * jnp.array(yarr)
         if len(inds):
-            return p.at[np.array(inds)].multiply(z)
+            return p.at[np.array(inds)].multiply(z, unique_indices=True)
         else:
             return p
 
diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 6a93648..4337bac 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -3,12 +3,11 @@ from collections.abc import Iterable
 import equinox as eqx
 import jax
 import jax.numpy as jnp
-from jax.scipy.spatial.transform import Rotation
 
 from jaxoplanet import starry
 from jaxoplanet.starry.core.basis import A1, U, poly_basis
 from jaxoplanet.starry.core.polynomials import Pijk
-from jaxoplanet.starry.core.rotation import full_rotation_axis_angle, left_project
+from jaxoplanet.starry.core.rotation import left_project
 from jaxoplanet.starry.utils import ortho_grid
 from jaxoplanet.starry.ylm import Ylm
 from jaxoplanet.types import Array, Quantity
@@ -213,16 +212,17 @@ class Surface(eqx.Module):
         Returns:
             float: intensity of the map at the given latitude and longitude
         """
-        lon = lon + jnp.pi / 2  # convention, 0 lon faces the observer
-        lat = jnp.pi / 2 - lat  # convention, latitude 0 is equator
-        x = jnp.sin(lat) * jnp.cos(lon)
-        y = jnp.sin(lat) * jnp.sin(lon)
-        z = jnp.cos(lat) * jnp.ones_like(x)
-
-        axis = full_rotation_axis_angle(self.inc - jnp.pi / 2, self.obl, 0.0, 0.0)
-        axis = jnp.array(axis[0:3]) * axis[-1]
-        rotation = Rotation.from_rotvec(axis)
-        x, y, z = rotation.apply(jnp.array([x, y, z]).T).T
+        # in the frame of the map, where the polar axis is y, latitude 0 is the
+        # equator and longitude 0 faces the observer when seen from the equator
+        x = jnp.cos(lat) * jnp.sin(lon)
+        y = jnp.sin(lat) * jnp.ones_like(x)
+        z = jnp.cos(lat) * jnp.cos(lon)
+
+        # on the sky: tilt the polar axis towards the observer, then on its side
+        sin_inc, cos_inc = jnp.sin(self.inc), jnp.cos(self.inc)
+        y, z = y * sin_inc - z * cos_inc, y * cos_inc + z * sin_inc
+        sin_obl, cos_obl = jnp.sin(self.obl), jnp.cos(self.obl)
+        x, y = x * cos_obl - y * sin_obl, x * sin_obl + y * cos_obl
 
         return self._intensity(x, y, z)
 
-- 
2.43.0


From 25c771440d42c417d07ec95539a1e0bfaff89e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 18/42] fix: small rotations dropped by
 full_rotation_axis_angle

---
 src/jaxoplanet/starry/core/rotation.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 06402eb..1f794ac 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -11,7 +11,7 @@ from jaxoplanet.starry.core.s2fft_rotation import (
     rotate_flms,
 )
 from jaxoplanet.types import Array
-from jaxoplanet.utils import get_dtype_eps
+from jaxoplanet.utils import get_dtype_eps, zero_safe_sqrt
 
 
 def dot_rotation_matrix(ydeg, x, y, z, theta):
@@ -120,20 +120,18 @@ def full_rotation_axis_angle(
     numerator2 = f * (-si * sm + sp * ci)
     numerator3 = f * (si * sm + sp * ci)
     arg = si * cm + ci * cp
-    denominator = jnp.sqrt(1 - 0.5 * arg**2)
-
     farg = f * arg
-    zero_angle = jnp.allclose(farg, 1.0, atol=get_dtype_eps(farg))
-    angle = jnp.where(zero_angle, 0.0, 2 * jnp.arccos(farg))
 
-    non_zero_angle = jnp.logical_not(zero_angle)
+    # the numerators are those of the axis times the sine of half of the angle,
+    # which is accurate for small angles (unlike sqrt(1 - farg**2))
+    sine = zero_safe_sqrt(numerator1**2 + numerator2**2 + numerator3**2)
+    angle = 2 * jnp.arctan2(sine, farg)
 
-    # this is mostly useful for the float32 case, where
-    # (1 - 0.5 * arg**2) in denominator can be negative due to numerical error
-    positive_arg = arg**2 < 2.0
-    axis_x = jnp.where(positive_arg & non_zero_angle, numerator1 / denominator, 1.0)
-    axis_y = jnp.where(positive_arg & non_zero_angle, numerator2 / denominator, 0.0)
-    axis_z = jnp.where(positive_arg & non_zero_angle, numerator3 / denominator, 0.0)
+    non_zero_angle = sine > 0.0
+    denominator = jnp.where(non_zero_angle, sine, 1.0)
+    axis_x = jnp.where(non_zero_angle, numerator1 / denominator, 1.0)
+    axis_y = jnp.where(non_zero_angle, numerator2 / denominator, 0.0)
+    axis_z = jnp.where(non_zero_angle, numerator3 / denominator, 0.0)
 
     return axis_x, axis_y, axis_z, angle
 
-- 
2.43.0


From 532f513c3316da60d969736532479eff703c0945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 19/42] fix: rotation about a negative z axis given by its z
 component only

---
 src/jaxoplanet/starry/core/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 1f794ac..fddbde6 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -40,7 +40,7 @@ def dot_rotation_matrix(ydeg, x, y, z, theta):
         if z is None:
             raise ValueError("Either x, y, or z must be specified")
 
-        return dot_rz(ydeg, theta)
+        return dot_rz(ydeg, jnp.where(jnp.less(z, 0.0), -theta, theta))
 
     x = 0.0 if x is None else x
     y = 0.0 if y is None else y
-- 
2.43.0


From 524360e4368d877311f9f195ff1e5c860fee6e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 20/42] fix: rotation about the z axis of integer coefficients

---
 src/jaxoplanet/starry/core/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index fddbde6..2e9ed5a 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -501,7 +501,7 @@ def dot_rz(deg, theta):
                     + M[ell * ell + 2 * ell - j] * sinmt[ell * ell + j]
                 )
 
-        return jnp.array(result, dtype=jnp.dtype(M))
+        return jnp.array(result, dtype=jnp.result_type(M, float))
 
     return impl
 
-- 
2.43.0


From 598ac55f5edb367bfce97d3ff6204f24c2519916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 21/42] fix: total occultation of a map by a concentric disc of
 the same size

---
 src/jaxoplanet/starry/core/solution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/solution.py b/src/jaxoplanet/starry/core/solution.py
index 8536bac..717e837 100644
--- a/src/jaxoplanet/starry/core/solution.py
+++ b/src/jaxoplanet/starry/core/solution.py
@@ -33,7 +33,13 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array]:
     b_cond = jnp.logical_and(jnp.greater(b, jnp.abs(1 - r)), jnp.less(b, 1 + r))
     b_ = jnp.where(b_cond, b, 1)
     area = jnp.where(b_cond, kite_area(r, b_, 1), 0)
-    return jnp.arctan2(area, b2 + factor), jnp.arctan2(area, b2 - factor)
+    arg0 = b2 + factor
+    arg1 = b2 - factor
+    # both arguments of arctan2 are zero for the total occultation by a disc of the
+    # same size (r=1, b=0) or when a point is on the limb (r=0, b=1)
+    arg0 = jnp.where(jnp.logical_and(area == 0, arg0 == 0), 1, arg0)
+    arg1 = jnp.where(jnp.logical_and(area == 0, arg1 == 0), -1, arg1)
+    return jnp.arctan2(area, arg0), jnp.arctan2(area, arg1)
 
 
 def q_integral(l_max: int, lam: Array) -> Array:
-- 
2.43.0


From d40c738aa0bf6e99366a95674829040d42612e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 22/42] fix: derivatives of light curves of a concentric disc
 of the same size or a point on the limb

---
 src/jaxoplanet/core/limb_dark.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index 48ea9be..c48f9f4 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -106,7 +106,12 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array, Array]:
     cond = jnp.logical_and(jnp.greater(b, jnp.abs(1 - r)), jnp.less(b, 1 + r))
     b_ = jnp.where(cond, b, jnp.ones_like(b))
     area: Array = jnp.where(cond, kite_area(r, b_, jnp.ones_like(r)), jnp.zeros_like(r))
-    return area, jnp.arctan2(area, b2 + factor), jnp.arctan2(area, b2 - factor)
+    arg0 = b2 + factor
+    arg1 = b2 - factor
+    # the derivatives of arctan2(0, 0) are undefined
+    arg0 = jnp.where(jnp.logical_and(area == 0, arg0 == 0), 1, arg0)
+    arg1 = jnp.where(jnp.logical_and(area == 0, arg1 == 0), -1, arg1)
+    return area, jnp.arctan2(area, arg0), jnp.arctan2(area, arg1)
 
 
 def s0s2(
-- 
2.43.0


From e7415634be802a52d8abb54715f1a2b8f18d2ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 23/42] fix: radial velocity of a surface multiplied by its
 amplitude

---
 src/jaxoplanet/starry/doppler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 7a9ab36..8c1a221 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -165,7 +165,7 @@ def surface_radial_velocity(
 
     intensity = (p_yu.tosparse() @ design_matrix_p[0:n_deg]) * norm
 
-    return surface.amplitude * rv * norm / intensity
+    return rv * norm / intensity
 
 
 def radial_velocity(system, order=20):
-- 
2.43.0


From 6eb3aee758cb8a1f2e94c25fd0222e0f509f05f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 24/42] fix: radial velocity of pole-on surfaces

---
 src/jaxoplanet/starry/doppler.py | 2 +-
 src/jaxoplanet/starry/surface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 8c1a221..1d39a08 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -147,7 +147,7 @@ def surface_radial_velocity(
 
     # the radial velocity map
     y_rv = rv_map_expansion(
-        inc=surface._inc, obl=surface._obl, veq=surface.veq, alpha=None
+        inc=surface.inc, obl=surface.obl, veq=surface.veq, alpha=None
     )
 
     # rotated to account for the occultor
diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 4337bac..e6407df 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -176,7 +176,7 @@ class Surface(eqx.Module):
 
         if rv:
             y_rv = starry.doppler.rv_map_expansion(
-                inc=self._inc, obl=self._obl, veq=self.veq, alpha=None
+                inc=self.inc, obl=self.obl, veq=self.veq, alpha=None
             )
             p_rv = Pijk.from_dense(
                 jax.experimental.sparse.BCOO.from_scipy_sparse(A1(self.vdeg)).todense()
-- 
2.43.0


From b14d486f7371d6924ccc0f054e6232cca20777ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 25/42] fix: radial velocity of the central of systems with
 several bodies, or none, and at a single time

---
 src/jaxoplanet/starry/doppler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 1d39a08..2cdedbf 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -173,7 +173,10 @@ def radial_velocity(system, order=20):
 
     def impl(time):
         rvs = bodies_rv(time)
-        rvs = rvs.at[:, 0].set(rvs[:, 0] + system.radial_velocity(time)[0].magnitude)
+        if len(system.bodies) > 0:
+            # the central is pulled by all bodies
+            central_rv = system.radial_velocity(time).magnitude.sum(axis=0)
+            rvs = rvs.at[..., 0].add(central_rv)
         return rvs
 
     return impl
-- 
2.43.0


From 9da2a49bc1f4442cef6e4cf1fc9644bf39388dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 26/42] fix: radial velocity of surfaces that do not rotate

---
 src/jaxoplanet/starry/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index e6407df..b7e4ae0 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -135,7 +135,9 @@ class Surface(eqx.Module):
 
     @property
     def veq(self):
-        """Equatorial velocity of the map in Rsun/day."""
+        """Equatorial velocity of the map in Rsun/day. None if not rotating."""
+        if self.period is None:
+            return None
         return 2 * jnp.pi * self.radius / self.period
 
     def _poly_basis(self, rv=False):
-- 
2.43.0


From d515e221f6ccf53f18d5003ebbecb821575ba122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 27/42] fix: degree 0 coefficient and occultor alignment of
 multi-precision rotations

---
 src/jaxoplanet/starry/multiprecision/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index 54637a0..be439b2 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -182,7 +182,7 @@ def dot_rotation_matrix(ydeg, u, theta, rotation_matrices=None):
         result = []
         for l in range(ydeg + 1):
             if l == 0:
-                result.append(mp.matrix([1]))
+                result.append(mp.matrix([M[0]]))
             else:
                 result.append(
                     mp.matrix(M[l * l : l * l + 2 * l + 1]).T @ rotation_matrices[l]
@@ -211,7 +211,7 @@ def left_project(deg, inc, obl, theta, theta_z, x):
     )(x)
 
     if theta_z != 0:
-        x = dot_rotation_matrix(deg, 0, 0, 1.0, -theta_z)(x)
+        x = dot_rotation_matrix(deg, (0.0, 0.0, 1.0), -theta_z)(x)
     return x.T
 
 
-- 
2.43.0


From e41e9b3b5faf59ed81b4ed15e0eef4f7cb895d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:44 +0000
Subject: [PATCH 28/42] fix: precision of the multi-precision rT

---
 src/jaxoplanet/starry/multiprecision/solution.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/solution.py b/src/jaxoplanet/starry/multiprecision/solution.py
index a8a97fe..ee84f22 100644
--- a/src/jaxoplanet/starry/multiprecision/solution.py
+++ b/src/jaxoplanet/starry/multiprecision/solution.py
@@ -194,8 +194,8 @@ def sT(l_max, b, r):
 def rT(lmax: int):
     rt = [0.0 for _ in range((lmax + 1) * (lmax + 1))]
     amp0 = mp.pi
-    lfac1 = 1.0
-    lfac2 = 2.0 / 3.0
+    lfac1 = mp.mpf(1)
+    lfac2 = mp.mpf(2) / 3
     for ell in range(0, lmax + 1, 4):
         amp = amp0
         for m in range(0, ell + 1, 4):
@@ -206,14 +206,14 @@ def rT(lmax: int):
             if ell < lmax:
                 rt[(ell + 1) * (ell + 1) + ell + m + 1] = amp * lfac2
                 rt[(ell + 1) * (ell + 1) + ell - m + 1] = amp * lfac2
-            amp *= (nu + 2.0) / (mu - 2.0)
+            amp *= mp.mpf(nu + 2) / (mu - 2)
         lfac1 /= (ell / 2 + 2) * (ell / 2 + 3)
         lfac2 /= (ell / 2 + 2.5) * (ell / 2 + 3.5)
         amp0 *= 0.0625 * (ell + 2) * (ell + 2)
 
     amp0 = 0.5 * mp.pi
-    lfac1 = 0.5
-    lfac2 = 4.0 / 15.0
+    lfac1 = mp.mpf(1) / 2
+    lfac2 = mp.mpf(4) / 15
     for ell in range(2, lmax + 1, 4):
         amp = amp0
         for m in range(2, ell + 1, 4):
@@ -224,7 +224,7 @@ def rT(lmax: int):
             if ell < lmax:
                 rt[(ell + 1) * (ell + 1) + ell + m + 1] = amp * lfac2
                 rt[(ell + 1) * (ell + 1) + ell - m + 1] = amp * lfac2
-            amp *= (nu + 2.0) / (mu - 2.0)
+            amp *= mp.mpf(nu + 2) / (mu - 2)
         lfac1 /= (ell / 2 + 2) * (ell / 2 + 3)
         lfac2 /= (ell / 2 + 2.5) * (ell / 2 + 3.5)
         amp0 *= 0.0625 * ell * (ell + 4)
-- 
2.43.0


From a831b2200f5a8bacb9c981b8f8831b275ed6f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 29/42] fix: multi-precision flux of limb-darkened maps out of
 occultation and of maps already rotated

---
 src/jaxoplanet/starry/multiprecision/flux.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/flux.py b/src/jaxoplanet/starry/multiprecision/flux.py
index d03c3e4..d16361d 100644
--- a/src/jaxoplanet/starry/multiprecision/flux.py
+++ b/src/jaxoplanet/starry/multiprecision/flux.py
@@ -49,22 +49,21 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
         y_rotated = dot_rotation_matrix(ydeg, None, None, R_inc)(y_rotated)
         return y_rotated
 
-    def rot_flux(y, phi):
-        y = mp.matrix(y.tolist())
-        y_rotated = rotate_y(y, phi)
-        return ((_A1 @ y_rotated).T @ _rT)[0]
+    def rot_flux(y, phi, u=None, rotate=True):
+        return design_flux(_rT.T, y, phi, u, rotate)
 
     def occ_flux(y, b, r, phi=0.0, u=None, rotate=True):
         xo = 0.0
         yo = b
         theta_z = mp.atan2(xo, yo)
         _sT = get_sT(deg, b, r, cache=cache)
-        x = _sT.T @ _A2
+        return design_flux(_sT.T @ _A2, y, phi, u, rotate, theta_z=theta_z)
 
+    def design_flux(x, y, phi, u, rotate, theta_z=0.0):
         if ydeg > 0:
-            y = mp.matrix(y.tolist())
+            y_rotated = mp.matrix(y.tolist())
             if rotate:
-                y_rotated = rotate_y(y, phi)
+                y_rotated = rotate_y(y_rotated, phi)
                 y_rotated = dot_rz(ydeg, theta_z)(y_rotated)
         else:
             y_rotated = mp.matrix([1])
@@ -90,7 +89,7 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
             assert len(y) == (ydeg + 1) ** 2, "y must have length (ydeg + 1) ** 2"
 
         if abs(b) >= (r + 1):
-            return rot_flux(y, phi)
+            return rot_flux(y, phi, u=u, rotate=rotate)[0]
         elif r > 1 and abs(b) <= (r - 1):
             return mp.mpf(0.0)
         else:
-- 
2.43.0


From e2d6bfe9bfcbb4b58e2f33dee9c7035e30e0a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 30/42] fix: scale the occulted flux of a uniform map that is
 not normalized by its coefficient

---
 src/jaxoplanet/starry/light_curves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index 3bf514c..1c932d2 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -91,7 +91,8 @@ def surface_light_curve(
 
             lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
             lc = lc_func(b, r)
-            return surface.amplitude * (1.0 + jnp.where(b_occ, lc, 0))
+            y00 = surface.y[(0, 0)]
+            return surface.amplitude * y00 * (1.0 + jnp.where(b_occ, lc, 0))
 
         else:
             theta_z = jnp.arctan2(x, y)
-- 
2.43.0


From 84ee4b56814b2cbd3fed562660d702c365ed562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:19 +0000
Subject: [PATCH 31/42] fix: finite derivatives of the spot profile with
 respect to the radius

---
 src/jaxoplanet/starry/ylm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index 49926c8..e1696bc 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -287,7 +287,7 @@ def spot_profile(theta, radius, spot_fac=300):
 
     """
     z = spot_fac * (theta - radius)
-    return 1 / (1 + jnp.exp(-z)) - 1
+    return -jax.nn.sigmoid(-z)
 
 
 def ylm_spot(ydeg: int, npts=300, spot_fac=300) -> callable:
-- 
2.43.0


From bc4a9c469e50d72ff67eed62b3b355042b759541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 32/42] fix: multi-precision solution vectors of impact
 parameters and radii given as floats

---
 src/jaxoplanet/starry/multiprecision/solution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/solution.py b/src/jaxoplanet/starry/multiprecision/solution.py
index ee84f22..42c73d4 100644
--- a/src/jaxoplanet/starry/multiprecision/solution.py
+++ b/src/jaxoplanet/starry/multiprecision/solution.py
@@ -186,8 +186,8 @@ def q_numerical(l_max, b, r):
 
 
 def sT(l_max, b, r):
-    r = abs(r)
-    b = abs(b)
+    r = abs(mp.convert(r))
+    b = abs(mp.convert(b))
     return q_numerical(l_max, b, r) - p_numerical(l_max, b, r)
 
 
@@ -232,6 +232,8 @@ def rT(lmax: int):
 
 
 def solution_limb_dark(degree, b, r):
+    b = mp.convert(b)
+    r = mp.convert(r)
     r2 = r**2
     b2 = b**2
     s = []
-- 
2.43.0


From d550805181f0a8848f50827cd1c63bd75fd0e7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 33/42] fix: multi-precision rotations about axes next to z

---
 src/jaxoplanet/starry/multiprecision/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index be439b2..e99d4f4 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -150,8 +150,8 @@ def R(lmax, u, theta):
             sinalpha = 0
         else:
             cosbeta = RA22
-            sinbeta = mp.sqrt(1 - cosbeta**2)
             norm1 = mp.sqrt(RA20 * RA20 + RA21 * RA21)
+            sinbeta = norm1
             norm2 = mp.sqrt(RA02 * RA02 + RA12 * RA12)
             cosgamma = -RA20 / norm1
             singamma = RA21 / norm1
-- 
2.43.0


From 63442b8d1902bc861a76aa57f902eab8852ca630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 34/42] fix: derivatives of light curves at exactly zero
 separation

---
 src/jaxoplanet/light_curves/emission.py  | 13 ++++++++-----
 src/jaxoplanet/light_curves/limb_dark.py |  8 +++++---
 src/jaxoplanet/utils.py                  |  9 ++++++++-
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index 93cb222..3287a24 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -10,6 +10,7 @@ from jaxoplanet.light_curves.utils import vectorize
 from jaxoplanet.starry.orbit import SurfaceSystem
 from jaxoplanet.types import Array, Quantity
 from jaxoplanet.units import unit_registry as ureg
+from jaxoplanet.utils import zero_safe_hypot
 
 
 def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity], Array]:
@@ -33,24 +34,26 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
         r_star = system.central.radius
         x, y, z = system.relative_position(time)
 
-        b = jnpu.sqrt(x**2 + y**2) / r_star
-        assert b.units == ureg.dimensionless
+        x, y = x / r_star, y / r_star
+        assert x.units == ureg.dimensionless
+        b = zero_safe_hypot(x.magnitude, y.magnitude)
         r = system.radius / r_star
         assert r.units == ureg.dimensionless
 
         lc_func = partial(_limb_dark_light_curve, system.central_surface.u, order=order)
-        lc = lc_func(b.magnitude, r.magnitude)
+        lc = lc_func(b, r.magnitude)
         lc = jnp.where(z > 0, lc, 0.0).sum(0) + 1
         lc = system.central_surface.amplitude * lc
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
             x, y, z = body.relative_position(time)
-            b = jnpu.sqrt(x**2 + y**2) / body.radius
+            x, y = x / body.radius, y / body.radius
+            b = zero_safe_hypot(x.magnitude, y.magnitude)
             r = r_star / body.radius
 
             lc_func = partial(_limb_dark_light_curve, surface.u, order=order)
-            lc_body = lc_func(b.magnitude, r.magnitude)
+            lc_body = lc_func(b, r.magnitude)
             lc_body = surface.amplitude * (1 + jnp.where(z < 0, lc_body, 0))
 
             bodies_lc.append(lc_body)
diff --git a/src/jaxoplanet/light_curves/limb_dark.py b/src/jaxoplanet/light_curves/limb_dark.py
index 018b662..a21389a 100644
--- a/src/jaxoplanet/light_curves/limb_dark.py
+++ b/src/jaxoplanet/light_curves/limb_dark.py
@@ -12,6 +12,7 @@ from jaxoplanet.light_curves.utils import vectorize
 from jaxoplanet.proto import LightCurveOrbit
 from jaxoplanet.types import Array, Quantity
 from jaxoplanet.units import unit_registry as ureg
+from jaxoplanet.utils import zero_safe_hypot
 
 
 def light_curve(
@@ -53,13 +54,14 @@ def light_curve(
         r_star = orbit.central_radius
         x, y, z = orbit.relative_position(time)
 
-        b = jnpu.sqrt(x**2 + y**2) / r_star
-        assert b.units == ureg.dimensionless
+        x, y = x / r_star, y / r_star
+        assert x.units == ureg.dimensionless
+        b = zero_safe_hypot(x.magnitude, y.magnitude)
         r = orbit.radius / r_star
         assert r.units == ureg.dimensionless
 
         lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
-        lc = lc_func(b.magnitude, r.magnitude)
+        lc = lc_func(b, r.magnitude)
         lc = jnp.where(z > 0, lc, 0)
 
         return lc
diff --git a/src/jaxoplanet/utils.py b/src/jaxoplanet/utils.py
index 66c8a42..d5516cc 100644
--- a/src/jaxoplanet/utils.py
+++ b/src/jaxoplanet/utils.py
@@ -1,4 +1,4 @@
-__all__ = ["get_dtype_eps", "zero_safe_sqrt"]
+__all__ = ["get_dtype_eps", "zero_safe_hypot", "zero_safe_sqrt"]
 
 import jax
 import jax.numpy as jnp
@@ -22,3 +22,10 @@ def zero_safe_sqrt_jvp(primals, tangents):
     denom = jnp.where(cond, jnp.ones_like(x), x)
     tangent_out = 0.5 * x_dot * primal_out / denom
     return primal_out, tangent_out
+
+
+def zero_safe_hypot(x, y):
+    """The distance to the origin, with derivatives equal to zero at the origin"""
+    d2 = jnp.square(x) + jnp.square(y)
+    cond = jnp.equal(d2, 0)
+    return jnp.where(cond, 0, jnp.sqrt(jnp.where(cond, 1, d2)))
-- 
2.43.0


From cbbdd5b69c7116c82e97ab1ab20cf7e626c74949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 35/42] fix: derivatives of orbits that do not transit

---
 src/jaxoplanet/orbits/transit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/orbits/transit.py b/src/jaxoplanet/orbits/transit.py
index c6f1021..a6c7951 100644
--- a/src/jaxoplanet/orbits/transit.py
+++ b/src/jaxoplanet/orbits/transit.py
@@ -5,6 +5,7 @@ import jpu.numpy as jnpu
 from jaxoplanet import units
 from jaxoplanet.types import Quantity
 from jaxoplanet.units import unit_registry as ureg
+from jaxoplanet.utils import zero_safe_sqrt
 
 
 class TransitOrbit(eqx.Module):
@@ -84,10 +85,11 @@ class TransitOrbit(eqx.Module):
             self.radius_ratio = radius_ratio
 
         x2 = jnpu.square(1 + self.radius_ratio) - jnpu.square(self.impact_param)
+        half_chord = zero_safe_sqrt(jnpu.maximum(0, x2).magnitude)
         if duration is None:
-            self.duration = 2 * jnpu.sqrt(jnpu.maximum(0, x2)) / self.speed
+            self.duration = 2 * half_chord / self.speed
         else:
-            self.speed = 2 * jnpu.sqrt(jnpu.maximum(0, x2)) / self.duration
+            self.speed = 2 * half_chord / self.duration
 
     @property
     def shape(self) -> tuple[int, ...]:
-- 
2.43.0


From 52dbb9db68bcab177919e1e40634ec5588d776fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 36/42] fix: derivatives of light curves for nearly concentric
 occultors

---
 src/jaxoplanet/core/limb_dark.py       | 12 ++++--------
 src/jaxoplanet/starry/core/solution.py | 10 ++++------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index c48f9f4..705d5c7 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -152,11 +152,9 @@ def p_integral(
     r2: Array,
     kappa0: Array,
 ) -> Array:
-    # This is a hack for when r -> 0 or b -> 0, so k2 -> inf
-    factor = 4 * b * r
-    k2_cond = jnp.less(factor, 10 * jnp.finfo(factor.dtype).eps)
-    factor: Array = jnp.where(k2_cond, jnp.ones_like(factor), factor)
-    k2 = jnp.maximum(jnp.zeros_like(factor), (1 - r2 - b2 + 2 * b * r) / factor)
+    # Since k2 -> inf when r -> 0 or b -> 0, we use k2 * factor instead
+    factor: Array = 4 * b * r
+    onembmr2 = (1 - (b - r)) * (1 + (b - r))
 
     roots, weights = roots_legendre(order)
     rng = 0.5 * kappa0
@@ -179,9 +177,7 @@ def p_integral(
         result = 2 * r * (r - b * c) * (1 - z3) / (3 * omz2)
         arg.append(jnp.where(cond, jnp.zeros_like(result[None, :]), result[None, :]))
     if l_max >= 3:
-        f0 = jnp.maximum(
-            jnp.zeros_like(r2), jnp.where(k2_cond, 1 - r2, factor * (k2 - s2))
-        )
+        f0 = jnp.maximum(jnp.zeros_like(r2), onembmr2 - factor * s2)
         n = jnp.arange(3, l_max + 1)
         f = f0[None, :] ** (0.5 * n[:, None])
         f *= 2 * r * (r - b + 2 * b * s2[None, :])
diff --git a/src/jaxoplanet/starry/core/solution.py b/src/jaxoplanet/starry/core/solution.py
index 717e837..beeda68 100644
--- a/src/jaxoplanet/starry/core/solution.py
+++ b/src/jaxoplanet/starry/core/solution.py
@@ -115,12 +115,10 @@ def p_integral(order: int, l_max: int, b: Array, r: Array, kappa0: Array) -> Arr
     b2 = jnp.square(b)
     r2 = jnp.square(r)
 
-    # This is a hack for when r -> 0 or b -> 0, so k2 -> inf
+    # Since k2 -> inf when r -> 0 or b -> 0, we use k2 * factor instead
     factor = 4 * b * r
-    k2_cond = jnp.less(factor, 10 * jnp.finfo(factor.dtype).eps)
-    factor = jnp.where(k2_cond, 1, factor)
-    k2 = jnp.maximum(0, (1 - r2 - b2 + 2 * b * r) / factor)
-    # And for when r -> 0
+    onembmr2 = (1 - (b - r)) * (1 + (b - r))
+    # This is a hack for when r -> 0
     r_cond = jnp.less(r, 10 * jnp.finfo(r.dtype).eps)
     delta = (b - r) / (2 * jnp.where(r_cond, 1, r))
     rng = 0.25 * kappa0
@@ -138,7 +136,7 @@ def p_integral(order: int, l_max: int, b: Array, r: Array, kappa0: Array) -> Arr
     high_roots, high_weights = roots_legendre(high_order)
     phi = rng * (high_roots + 1)
     high_s2 = jnp.square(jnp.sin(phi))
-    high_f0 = jnp.maximum(0, jnp.where(k2_cond, 1 - r2, factor * (k2 - high_s2))) ** 1.5
+    high_f0 = jnp.maximum(0, onembmr2 - factor * high_s2) ** 1.5
     high_a1 = high_s2 - jnp.square(high_s2)
     high_a2 = jnp.where(r_cond, 0, delta + high_s2)
     high_a4 = 1 - 2 * high_s2
-- 
2.43.0


From f4c80351b74f77f89ccacb46de32412fa55d34ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 37/42] fix: derivatives of surface light curves and velocities
 for an occultor behind or off the disc at the origin

---
 src/jaxoplanet/starry/doppler.py      | 7 +++++--
 src/jaxoplanet/starry/light_curves.py | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 2cdedbf..6d9924e 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -10,6 +10,7 @@ from jaxoplanet.starry.core.rotation import dot_rz, left_project
 from jaxoplanet.starry.core.solution import rT, solution_vector
 from jaxoplanet.starry.surface import Surface
 from jaxoplanet.starry.system_observable import system_observable
+from jaxoplanet.utils import zero_safe_hypot
 
 
 def rv_map_expansion(veq=None, inc=None, obl=None, alpha=None):
@@ -97,11 +98,13 @@ def surface_radial_velocity(
         b = jnp.sqrt(jnp.square(x) + jnp.square(y))
         b_rot = jnp.logical_or(jnp.greater_equal(b, 1.0 + r), jnp.less_equal(z, 0.0))
         b_occ = jnp.logical_not(b_rot)
-        theta_z = jnp.arctan2(x, y)
 
         # trick to avoid nan `x=jnp.where...` grad caused by nan sT
         r = jnp.where(b_rot, 1.0, r)
-        b = jnp.where(b_rot, 1.0, b)
+        x = jnp.where(b_rot, 0.0, x)
+        y = jnp.where(b_rot, 1.0, y)
+        b = zero_safe_hypot(x, y)
+        theta_z = jnp.arctan2(x, y)
 
         sT = solution_vector(total_deg, order=order)(b, r)
 
diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index 1c932d2..c4d79d5 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -12,6 +12,7 @@ from jaxoplanet.starry.core.rotation import left_project
 from jaxoplanet.starry.core.solution import rT, solution_vector
 from jaxoplanet.starry.surface import Surface
 from jaxoplanet.starry.system_observable import system_observable
+from jaxoplanet.utils import zero_safe_hypot
 
 
 def surface_light_curve(
@@ -79,7 +80,9 @@ def surface_light_curve(
 
         # trick to avoid nan `x=jnp.where...` grad caused by nan sT
         r = jnp.where(b_rot, 1.0, r)
-        b = jnp.where(b_rot, 1.0, b)
+        x = jnp.where(b_rot, 0.0, x)
+        y = jnp.where(b_rot, 1.0, y)
+        b = zero_safe_hypot(x, y)
 
         if surface.ydeg == 0:
             if surface.udeg == 0:
-- 
2.43.0


From 05bc35641e1d5db6cd37c623ab6f5430c36131ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:46 +0000
Subject: [PATCH 38/42] fix: derivatives of light curves for nearly concentric
 discs of the same size

---
 src/jaxoplanet/core/limb_dark.py       | 6 +++---
 src/jaxoplanet/starry/core/solution.py | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index 705d5c7..05d89a6 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -108,9 +108,9 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array, Array]:
     area: Array = jnp.where(cond, kite_area(r, b_, jnp.ones_like(r)), jnp.zeros_like(r))
     arg0 = b2 + factor
     arg1 = b2 - factor
-    # the derivatives of arctan2(0, 0) are undefined
-    arg0 = jnp.where(jnp.logical_and(area == 0, arg0 == 0), 1, arg0)
-    arg1 = jnp.where(jnp.logical_and(area == 0, arg1 == 0), -1, arg1)
+    # the derivatives of arctan2(0, x) are undefined for x = 0 (or when x**2 underflows)
+    arg0 = jnp.where(area == 0, jnp.where(arg0 < 0, -1, 1), arg0)
+    arg1 = jnp.where(area == 0, jnp.where(arg1 > 0, 1, -1), arg1)
     return area, jnp.arctan2(area, arg0), jnp.arctan2(area, arg1)
 
 
diff --git a/src/jaxoplanet/starry/core/solution.py b/src/jaxoplanet/starry/core/solution.py
index beeda68..0303724 100644
--- a/src/jaxoplanet/starry/core/solution.py
+++ b/src/jaxoplanet/starry/core/solution.py
@@ -35,10 +35,11 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array]:
     area = jnp.where(b_cond, kite_area(r, b_, 1), 0)
     arg0 = b2 + factor
     arg1 = b2 - factor
-    # both arguments of arctan2 are zero for the total occultation by a disc of the
-    # same size (r=1, b=0) or when a point is on the limb (r=0, b=1)
-    arg0 = jnp.where(jnp.logical_and(area == 0, arg0 == 0), 1, arg0)
-    arg1 = jnp.where(jnp.logical_and(area == 0, arg1 == 0), -1, arg1)
+    # both arguments of arctan2 are zero (or their squares underflow) for the total
+    # occultation by a disc of the same size (r=1, b=0) or when a point is on the limb
+    # (r=0, b=1)
+    arg0 = jnp.where(area == 0, jnp.where(arg0 < 0, -1, 1), arg0)
+    arg1 = jnp.where(area == 0, jnp.where(arg1 > 0, 1, -1), arg1)
     return jnp.arctan2(area, arg0), jnp.arctan2(area, arg1)
 
 
-- 
2.43.0


From 9cccf771ec87bbcc24cd2d3e27072c1242bdfacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:23 +0000
Subject: [PATCH 39/42] fix: TTVOrbit of a single planet given by ttvs could
 not be compiled or differentiated

---
 src/jaxoplanet/orbits/ttv.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index 6670ba0..787a619 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -200,17 +200,8 @@ class TTVOrbit(TransitOrbit):
             # Reconstruct transit_times: t0 + period * inds + ttvs
             transit_times_list = []
             for ttv, inds in zip(self.ttvs, self.transit_inds, strict=False):
-                # Handle single-planet t0 and period versus multi-planet cases.
-                if self.t0.ndim > 0 and self.t0.shape[0] > 1:
-                    t0_i = self.t0[len(transit_times_list)]
-                    period_i = self.ttv_period[len(transit_times_list)]
-                else:
-                    t0_i = self.t0.item() if hasattr(self.t0, "item") else self.t0
-                    period_i = (
-                        self.ttv_period.item()
-                        if hasattr(self.ttv_period, "item")
-                        else self.ttv_period
-                    )
+                t0_i = self.t0[len(transit_times_list)]
+                period_i = self.ttv_period[len(transit_times_list)]
                 transit_times_list.append(t0_i + period_i * inds + ttv)
             self.transit_times = tuple(transit_times_list)
 
-- 
2.43.0


From 30d19dc7bf7f658b1d8e100da8739eb85d606677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:23 +0000
Subject: [PATCH 40/42] fix: spot expansions could not be made inside compiled
 functions

---
 src/jaxoplanet/starry/ylm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index e1696bc..53506d5 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -266,8 +266,8 @@ def Bp(ydeg, npts: int = 1000, eps: float = 1e-9, smoothing=None):
         else:
             smoothing = 2.0 / ydeg
 
-    theta = jnp.linspace(0, jnp.pi, npts)
-    cost = jnp.cos(theta)
+    theta = np.linspace(0, np.pi, npts)
+    cost = np.cos(theta)
     B = jnp.hstack(
         [
             jnp.sqrt(2 * l + 1) * LegendreP(l)(cost).reshape(-1, 1)
-- 
2.43.0


From b36ba231d33f1192db63f442559cfbf47de335de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:23 +0000
Subject: [PATCH 41/42] fix: show_surface drew the graticule on the current
 axes instead of the axes given, and larger or smaller than the image for
 bodies of any radius but one

---
 src/jaxoplanet/starry/utils.py         | 12 ++++++++----
 src/jaxoplanet/starry/visualization.py |  7 ++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/jaxoplanet/starry/utils.py b/src/jaxoplanet/starry/utils.py
index 4c636d4..6470a2c 100644
--- a/src/jaxoplanet/starry/utils.py
+++ b/src/jaxoplanet/starry/utils.py
@@ -113,6 +113,7 @@ def graticule(
     white_contour=True,
     radius: float = 1.0,
     n=6,
+    ax=None,
     **kwargs,
 ):
     import matplotlib.pyplot as plt
@@ -121,19 +122,22 @@ def graticule(
     kwargs.setdefault("lw", kwargs.pop("linewidth", 1))
     kwargs.setdefault("alpha", 0.3)
 
+    if ax is None:
+        ax = plt.gca()
+
     # plot lines
     lat, lon = lon_lat_lines(pts=pts, radius=radius, n=n)
     lat = rotate_lines(lat, inc, obl, theta)
-    plot_lines(lat, **kwargs)
+    plot_lines(lat, ax=ax, **kwargs)
     lon = rotate_lines(lon, inc, obl, theta)
-    plot_lines(lon, **kwargs)
+    plot_lines(lon, ax=ax, **kwargs)
     theta = np.linspace(0, 2 * np.pi, 2 * pts)
 
     # contour
     sqrt_radius = radius
-    plt.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), **kwargs)
+    ax.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), **kwargs)
     if white_contour:
-        plt.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), c="w", lw=3)
+        ax.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), c="w", lw=3)
 
 
 # s2fft have the same but this one is jitabel
diff --git a/src/jaxoplanet/starry/visualization.py b/src/jaxoplanet/starry/visualization.py
index 9b2832d..afaa768 100644
--- a/src/jaxoplanet/starry/visualization.py
+++ b/src/jaxoplanet/starry/visualization.py
@@ -77,7 +77,7 @@ def show_surface(
         radius = 1.0 if radius is None else radius
 
     phase = theta + (surface.phase if include_phase else 0.0)
-    extent = np.array([-1, 1, -1, 1])
+    extent = radius * np.array([-1, 1, -1, 1])
 
     im = ax.imshow(
         surface.render(phase, res, rv=rv),
@@ -93,9 +93,10 @@ def show_surface(
             radius=radius,
             n=n,
             white_contour=white_contour,
+            ax=ax,
         )
-    ax.set_xlim(-1.02, 1.02)
-    ax.set_ylim(-1.02, 1.02)
+    ax.set_xlim(-1.02 * radius, 1.02 * radius)
+    ax.set_ylim(-1.02 * radius, 1.02 * radius)
     ax.axis(False)
 
     if return_im:
-- 
2.43.0


From dae10811a006faa63ac06bea2f55fbf2ba1a815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:51 +0000
Subject: [PATCH 42/42] fix: radial velocities raised, and light curves
 compared angles with lengths, for bodies with a parallax

---
 src/jaxoplanet/light_curves/emission.py    |  4 ++--
 src/jaxoplanet/light_curves/limb_dark.py   |  2 +-
 src/jaxoplanet/orbits/keplerian.py         | 18 +++++++++++++++++-
 src/jaxoplanet/starry/system_observable.py |  2 +-
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index 3287a24..b5fb725 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -32,7 +32,7 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
 
         # Evaluate the coordinates of the transiting body
         r_star = system.central.radius
-        x, y, z = system.relative_position(time)
+        x, y, z = system._in_lengths.relative_position(time)
 
         x, y = x / r_star, y / r_star
         assert x.units == ureg.dimensionless
@@ -47,7 +47,7 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
-            x, y, z = body.relative_position(time)
+            x, y, z = body._in_lengths.relative_position(time)
             x, y = x / body.radius, y / body.radius
             b = zero_safe_hypot(x.magnitude, y.magnitude)
             r = r_star / body.radius
diff --git a/src/jaxoplanet/light_curves/limb_dark.py b/src/jaxoplanet/light_curves/limb_dark.py
index a21389a..b563978 100644
--- a/src/jaxoplanet/light_curves/limb_dark.py
+++ b/src/jaxoplanet/light_curves/limb_dark.py
@@ -52,7 +52,7 @@ def light_curve(
 
         # Evaluate the coordinates of the transiting body
         r_star = orbit.central_radius
-        x, y, z = orbit.relative_position(time)
+        x, y, z = getattr(orbit, "_in_lengths", orbit).relative_position(time)
 
         x, y = x / r_star, y / r_star
         assert x.units == ureg.dimensionless
diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index 4558df0..bc864da 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -385,6 +385,13 @@ class OrbitalBody(eqx.Module):
     def total_mass(self) -> Quantity:
         return self.central.mass if self.mass is None else self.mass + self.central.mass
 
+    @property
+    def _in_lengths(self) -> "OrbitalBody":
+        """This body without its parallax, whose positions are always lengths"""
+        if self.parallax is None:
+            return self
+        return eqx.tree_at(lambda body: body.parallax, self, None)
+
     def position(
         self, t: Quantity, parallax: Quantity | None = None
     ) -> tuple[Quantity, Quantity, Quantity]:
@@ -544,7 +551,8 @@ class OrbitalBody(eqx.Module):
         Returns:
             The reflex radial velocity evaluated at ``t``.
         """
-        return -self.central_velocity(t, semiamplitude=semiamplitude)[2]  # type: ignore
+        body = self._in_lengths
+        return -body.central_velocity(t, semiamplitude=semiamplitude)[2]  # type: ignore
 
     def _warp_times(self, t: Quantity) -> Quantity:
         return t - self.time_transit  # type: ignore
@@ -709,6 +717,14 @@ class System(eqx.Module):
     def bodies(self) -> tuple[OrbitalBody, ...]:
         return self._body_stack.objects
 
+    @property
+    def _in_lengths(self) -> "System":
+        """This system without parallaxes, whose positions are always lengths"""
+        if all(body.parallax is None for body in self.bodies):
+            return self
+        bodies = ObjectStack(*(body._in_lengths for body in self.bodies))
+        return eqx.tree_at(lambda system: system._body_stack, self, bodies)
+
     @property
     def radius(self) -> Quantity:
         return self.body_vmap(lambda body: body.radius)()
diff --git a/src/jaxoplanet/starry/system_observable.py b/src/jaxoplanet/starry/system_observable.py
index b689192..ac269b0 100644
--- a/src/jaxoplanet/starry/system_observable.py
+++ b/src/jaxoplanet/starry/system_observable.py
@@ -53,7 +53,7 @@ def system_observable(surface_observable, **kwargs):
                     system.central_surface, theta=theta
                 )
                 if len(system.bodies) > 0:
-                    xos, yos, zos = system.relative_position(time)
+                    xos, yos, zos = system._in_lengths.relative_position(time)
                     n = len(xos.magnitude)
                     central_light_curves = central_bodies_observable(
                         system.central_surface,
-- 
2.43.0

