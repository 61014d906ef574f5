From b14929bdbd90f023ed268c4ae7605bd1bf629cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 01/38] fix: ParkerSolution speed and density no longer modify
 the radii given by the caller

---
 starwinds_magnetogram/parker_solution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 0051dd6..65ff27e 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -99,8 +99,8 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        # Radii inside the star count as the surface. This makes a new array; the argument is left alone.
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds_dimensionless = self.find_parker_analytic(radii / self.radius_sonic)
         speeds = speeds_dimensionless * self.speed_sonic
@@ -112,8 +112,8 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        # Radii inside the star count as the surface. This makes a new array; the argument is left alone.
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds = self.speed(radii)
         densities = self.base_density * \
-- 
2.43.0


From c49508bbbe2b5d39988e13e4bebbc7653eb69220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 02/38] fix: Parker wind speed at the sonic radius is the sound
 speed, not complex nan

---
 starwinds_magnetogram/parker_solution.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 65ff27e..51976d5 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -45,13 +45,19 @@ class AnalyticBase:
             else:
                 return branches[1]
 
+        lambertw_argument = -np.exp(-_parker_rhs - 1)
+
+        def _lambertw(branch):
+            # At the sonic point the argument is the branch point -1/e, where both branches are -1.
+            # The rounded argument may lie beyond the branch point, where lambertw is complex or nan.
+            if lambertw_argument <= -np.exp(-1):
+                return -1.0
+            return np.real(lambertw(lambertw_argument, branch))
+
         if not all_sols:
-            w = np.sqrt(-lambertw(-np.exp(-_parker_rhs - 1), _branch(radius_dimensionless)))
-            return np.real_if_close(w)
+            return np.sqrt(-_lambertw(_branch(radius_dimensionless)))
         else:
-            w = np.sqrt(-lambertw(-np.exp(-_parker_rhs - 1), branches))
-            w = np.real_if_close(w)
-            return w[0], w[1]
+            return np.sqrt(-_lambertw(branches[0])), np.sqrt(-_lambertw(branches[1]))
 
 
 class ParkerSolution(AnalyticBase):
-- 
2.43.0


From ea9f77db63b46a42af05bb7b77944d28e8ae3764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 03/38] fix: energy of a ZDI magnetogram without an axial
 dipole coefficient

---
 starwinds_magnetogram/zdi_magnetogram.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 18b37cd..ace6f55 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -449,10 +449,8 @@ class ZdiMagnetogram:
             dict_['magnetogram.total.energy.toroidal.axisymmetric.fraction'] = toroidal_axisym / total_energy_toroidal
 
             
-            symdipfrac_numerator = (energy_alpha + energy_beta)[np.logical_and(self.degrees_l == 1, self.orders_m == 0)]
+            symdipfrac_numerator = np.sum((energy_alpha + energy_beta)[np.logical_and(self.degrees_l == 1, self.orders_m == 0)])
             symdipfrac_denominator = np.sum((energy_alpha + energy_beta)[self.degrees_l == 1])
-            assert len(symdipfrac_numerator) == 1
-            symdipfrac_numerator = symdipfrac_numerator[0]
             symdipfrac = symdipfrac_numerator / symdipfrac_denominator 
 
             dict_['magnetogram.total.energy.dipole.axisymmetric.fraction'] = symdipfrac
-- 
2.43.0


From 38d0c11860c33eab1313566194960d3d53401b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 04/38] fix: Cartesian poloidal and toroidal ZDI fields use the
 accurate derivatives

The toroidal one always failed (assert False in get_azimuthal_toroidal_field)
and the poloidal one differed from the full field by the error of a finite
difference, with rounding infinities at the grid ends.
---
 starwinds_magnetogram/zdi_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index ace6f55..470280d 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -558,7 +558,7 @@ class ZdiMagnetogram:
         """
         # Field components in spherical coordinates
         frpa = [self.get_radial_poloidal_field(points_polar, points_azimuth),
-                self.get_polar_poloidal_field(points_polar, points_azimuth),
+                self.get_polar_poloidal_field_new(points_polar, points_azimuth),
                 self.get_azimuthal_poloidal_field(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
@@ -570,7 +570,7 @@ class ZdiMagnetogram:
         # Field components in spherical coordinates
         frpa = [self.get_radial_toroidal_field(points_polar, points_azimuth),
                 self.get_polar_toroidal_field(points_polar, points_azimuth),
-                self.get_azimuthal_toroidal_field(points_polar, points_azimuth)]
+                self.get_azimuthal_toroidal_field_new(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
 
-- 
2.43.0


From cdd0c71c5c0ef86687fc535fbf1e85f4356b2504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 05/38] fix: the default value of a coefficient set is not
 shared with callers

Modifying the array given to the constructor, or the array returned for a
missing coefficient, changed the value of every missing coefficient.
---
 starwinds_magnetogram/coefficients.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index d282542..4e60180 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -13,7 +13,7 @@ class Coefficients(object):
     def __init__(self, default_coefficients=0j):
         """Create an empty set of coefficients"""
         self.coefficients = {}
-        self._default_coefficients = np.atleast_1d(default_coefficients)
+        self._default_coefficients = np.atleast_1d(default_coefficients).copy()
         self._degree_max = 0
         self._order_min = 0
 
@@ -53,7 +53,9 @@ class Coefficients(object):
         assert type(degree) == int, "Degree index must be integer"
         assert type(order) == int, "Order index must be integer"
 
-        return self.coefficients.get((degree, order), self._default_coefficients)
+        if (degree, order) not in self.coefficients:
+            return self.default_coefficients  # A copy; changing it does not change the default.
+        return self.coefficients[(degree, order)]
 
     @property
     def degree_max(self):
-- 
2.43.0


From 110e02376440fa05c8df9587a3c4ac04b5c838c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 06/38] fix: comparing empty coefficient sets

isclose and allclose failed when neither set has a coefficient, and the
default of the isclose result was uninitialised memory.
---
 starwinds_magnetogram/coefficients.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index 4e60180..cefd054 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -222,24 +222,19 @@ def allclose(shc0,
         return False
 
     bool_coeffs = isclose(shc0, shc1, **kwargs)
-    bool_values = np.stack([v for k, v in bool_coeffs.contents()])
 
-    return np.all(bool_values)
+    return all(np.all(v) for k, v in bool_coeffs.contents())
 
 
 def isclose(shc0, shc1, **kwargs):
 
     keys = set.union(*[set(a.coefficients) for a in (shc0, shc1)])
 
-    c0 = np.vstack([shc0.get(degree, order) for degree, order in keys])
-    c1 = np.vstack([shc1.get(degree, order) for degree, order in keys])
-
-    bools = np.isclose(c0, c1, **kwargs)
-
     # Use a boolean array as the default coefficient
-    coeffs = Coefficients(default_coefficients=np.empty_like(shc0.default_coefficients, dtype=bool))
-    for (degree, order), bool_ in zip(keys, bools):
-        coeffs.append(degree, order, bool_)
+    coeffs = Coefficients(default_coefficients=np.isclose(shc0.default_coefficients,
+                                                          shc1.default_coefficients, **kwargs))
+    for degree, order in keys:
+        coeffs.append(degree, order, np.isclose(shc0.get(degree, order), shc1.get(degree, order), **kwargs))
     return coeffs
 
 
-- 
2.43.0


From 6eb99b24bdaf59a9d22d700645693c1931235536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 07/38] fix: longitudinal field for integer observer azimuths
 is not truncated to integers

---
 starwinds_magnetogram/longitudinal_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/longitudinal_field.py b/starwinds_magnetogram/longitudinal_field.py
index 569a3e9..0a72668 100644
--- a/starwinds_magnetogram/longitudinal_field.py
+++ b/starwinds_magnetogram/longitudinal_field.py
@@ -21,7 +21,7 @@ def get_longitudinal_field_curve(zdi_geometry, zdi_magnetogram, observer_polar,
     if observer_azimuths is None:
         observer_azimuths = np.deg2rad(np.linspace(0, 360, zdi_geometry.shape[0]))
 
-    longitudinal_fields = np.empty_like(observer_azimuths)
+    longitudinal_fields = np.empty_like(observer_azimuths, dtype=float)
 
     areas = zdi_geometry.areas()
 
-- 
2.43.0


From 837a2553bb6847f51b0d80d37677a61924a36d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 08/38] fix: wavelength intervals neither overlap at gaps nor
 lose the last sample

---
 starwinds_magnetogram/plot_lsd.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/starwinds_magnetogram/plot_lsd.py b/starwinds_magnetogram/plot_lsd.py
index d27ac0b..326795e 100644
--- a/starwinds_magnetogram/plot_lsd.py
+++ b/starwinds_magnetogram/plot_lsd.py
@@ -38,11 +38,9 @@ def wl_intervals(wavelengths, threshold=0.2):
     """
     abs_diffs = np.abs(np.diff(wavelengths))
     skips = np.where(abs_diffs > threshold)[0]
-    print(skips)
-    interval_starts = np.concatenate(([0],skips))
-    interval_ends = np.concatenate(
-        (skips + 1,
-         np.array([len(wavelengths)-1])))
+    # The skip is between sample number skips and the next one, where the next interval starts.
+    interval_starts = np.concatenate(([0], skips + 1))
+    interval_ends = np.concatenate((skips + 1, [len(wavelengths)]))
     return zip(interval_starts, interval_ends)
 
 
-- 
2.43.0


From bd6f18aa12d16a8c67a21b0e40ed4dbfaa0c5d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 09/38] fix: sw-plot-lsd with a single parameter

---
 starwinds_magnetogram/bin/plot_lsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/bin/plot_lsd.py b/starwinds_magnetogram/bin/plot_lsd.py
index 172e915..df63617 100644
--- a/starwinds_magnetogram/bin/plot_lsd.py
+++ b/starwinds_magnetogram/bin/plot_lsd.py
@@ -27,9 +27,9 @@ def main():
     base_data = np.genfromtxt(args.input_file, skip_header=args.skip_rows)
 
     parameters = args.params
-    _, axs = plt.subplots(len(parameters), figsize=(8, 6), sharex=True)
+    _, axs = plt.subplots(len(parameters), figsize=(8, 6), sharex=True, squeeze=False)
     plot_lsd.plot_lsd_profile(base_data, parameters=parameters)
-    axs[0].set_title('Data in %s' % args.input_file)
+    axs[0, 0].set_title('Data in %s' % args.input_file)
 
     if args.output_file is None:
         plt.show()
-- 
2.43.0


From 8feae6d4a4cea6b709455e1fda0ac8d343351340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 10/38] fix: PFSS to ZDI conversion uses the default source
 surface radius

A source surface at 3 stellar radii was hard coded, so that the tangential
field differed from that of the PFSS model (default 2.5) for low degrees.
---
 starwinds_magnetogram/converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/converter.py b/starwinds_magnetogram/converter.py
index 319dc01..6834c8c 100644
--- a/starwinds_magnetogram/converter.py
+++ b/starwinds_magnetogram/converter.py
@@ -126,7 +126,8 @@ def convert_zdi_to_pfss(zdi_radial_coeffs):
 
 
 def _beta_inverse_conversion_factor(degree_l, order_m):
-    R, _ = pfss_magnetogram.r_l(degree_l, 1, 1, 3)
+    R, _ = pfss_magnetogram.r_l(degree_l, 1, 1,
+                                pfss_magnetogram.default_radius_source_surface / pfss_magnetogram.default_radius_star)
     return R * (degree_l + 1)
 
 
-- 
2.43.0


From 4ac84c3cc6ee829327c22aa01a9be4cf5a981662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 11/38] fix: converter refuses to overwrite its input file
 under another spelling of its path

---
 starwinds_magnetogram/bin/convert_magnetogram.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/convert_magnetogram.py b/starwinds_magnetogram/bin/convert_magnetogram.py
index 4b563fd..8912356 100644
--- a/starwinds_magnetogram/bin/convert_magnetogram.py
+++ b/starwinds_magnetogram/bin/convert_magnetogram.py
@@ -104,7 +104,12 @@ def _make_output_filename(input_file, output_name, postfix):
         if os.path.exists(output_name):
             raise ValueError(f"Output file {output_name} already exists. Please specify a different output file name.")
 
-    if input_file == output_name:
+    if os.path.exists(input_file) and os.path.exists(output_name):
+        same_file = os.path.samefile(input_file, output_name)  # Also when the paths are spelled differently.
+    else:
+        same_file = input_file == output_name
+
+    if same_file:
         raise ValueError("Input and output file names are the same. Please provide a (different) output file name.")
 
     return output_name
-- 
2.43.0


From a407d1da99509338237d0f320bbd6423be00666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 12/38] fix: arrays returned by spherical_harmonic are not the
 cached ones

---
 starwinds_magnetogram/image_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/image_converter.py b/starwinds_magnetogram/image_converter.py
index bf39932..718d488 100644
--- a/starwinds_magnetogram/image_converter.py
+++ b/starwinds_magnetogram/image_converter.py
@@ -94,7 +94,7 @@ def spherical_harmonic(ord_m, deg_l, azimuth, polar, use_cache=True):
 
         ylm = _cached_spherical_harmonic(ord_m, deg_l, azimuth_tuple, polar_tuple)
 
-        return ylm
+        return ylm.copy()  # Changing the returned array does not change the cached one.
     else:
         return sph_harm(ord_m, deg_l, azimuth, polar)
 
-- 
2.43.0


From 4bd5c549788e254459c476268d763b8c27040fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 13/38] fix: sw-plot-magnetogram labels of the polar and
 azimuthal field were swapped

---
 starwinds_magnetogram/bin/plot_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/bin/plot_magnetogram.py b/starwinds_magnetogram/bin/plot_magnetogram.py
index 955d3e8..9682ef2 100644
--- a/starwinds_magnetogram/bin/plot_magnetogram.py
+++ b/starwinds_magnetogram/bin/plot_magnetogram.py
@@ -43,8 +43,8 @@ def main():
     _star_name = guess_star_name_from_filename(args.input_file)
 
     _getters = {'radial': (lz.get_radial_field, 'B_r'),
-                'polar': (lz.get_polar_field, r'B_\phi'),
-                'azimuthal': (lz.get_azimuthal_field, r'B_\theta'),
+                'polar': (lz.get_polar_field, r'B_\theta'),
+                'azimuthal': (lz.get_azimuthal_field, r'B_\phi'),
                 'strength': (lz.get_field_strength, '|B|')}
     _getters['azimuth'] = _getters['azimuthal']
 
-- 
2.43.0


From f2fd071864a8647e5f84d40bb8951bce59da9542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 14/38] fix: SWMF header states the number of data rows per
 component

---
 starwinds_magnetogram/reader_writer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/reader_writer.py b/starwinds_magnetogram/reader_writer.py
index 6a4d09b..2c5edaa 100644
--- a/starwinds_magnetogram/reader_writer.py
+++ b/starwinds_magnetogram/reader_writer.py
@@ -103,13 +103,14 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
         # coefficient_data_lines.append(["%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data)) for
         #                       (d, m, data) in zip(*coefficients.as_arrays(degree_l_max=degree_max,
         #                                                                   order_m_min=order_min))])
+        data_lines = []
         for d, m, data in zip(*coefficients.as_arrays(degree_l_max=degree_max,
                                                             order_m_min=order_min)):
             
             assert len(data) == 1, "Expected single complex coefficient"
             data = data[0]
-            coefficient_data_lines.append(["%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data))])        
-
+            data_lines.append("%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data)))
+        coefficient_data_lines.append(data_lines)
 
     if write_swmf_header:
         header_lines = create_swmf_header(file_name, len(coefficient_data_lines[0]), degree_max,
-- 
2.43.0


From 9f10302ee5f68e8f7d8ba6f6091d0429a2cfd086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 15/38] fix: converter does not write through a dangling link
 at its default output name

---
 starwinds_magnetogram/bin/convert_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/convert_magnetogram.py b/starwinds_magnetogram/bin/convert_magnetogram.py
index 8912356..2b98f21 100644
--- a/starwinds_magnetogram/bin/convert_magnetogram.py
+++ b/starwinds_magnetogram/bin/convert_magnetogram.py
@@ -101,7 +101,7 @@ def _make_output_filename(input_file, output_name, postfix):
         input_file_name += "_" + postfix
         output_name = input_file_name + input_file_extension
 
-        if os.path.exists(output_name):
+        if os.path.lexists(output_name):
             raise ValueError(f"Output file {output_name} already exists. Please specify a different output file name.")
 
     if os.path.exists(input_file) and os.path.exists(output_name):
-- 
2.43.0


From e2c5c128db47d848ed2646e99e2caf6a98216bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 16/38] fix: field of a magnetogram restricted to no
 coefficients is zero, not an error

---
 starwinds_magnetogram/associated_legendre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/associated_legendre.py b/starwinds_magnetogram/associated_legendre.py
index a702eba..2bb15c7 100644
--- a/starwinds_magnetogram/associated_legendre.py
+++ b/starwinds_magnetogram/associated_legendre.py
@@ -9,8 +9,8 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
     :param points_polar: point polar angle values
     :return: tuple of values and derivative values. The last index corresponds to the order and degree.
     """
-    max_degree = np.max(degrees_l)
-    max_order = np.max(orders_m)
+    max_degree = np.max(degrees_l, initial=0)  # There may be no coefficients.
+    max_order = np.max(orders_m, initial=0)
     Pmn_cos_theta_result = np.empty(points_polar.shape + (max_order + 1, max_degree + 1))
     Pmn_d_cos_theta_result = np.empty_like(Pmn_cos_theta_result)
 
-- 
2.43.0


From 8f769f0b0d7053d78ce7653d1c1398c0f749ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:12 +0000
Subject: [PATCH 17/38] fix: ZDI energies are real for strong fields too

---
 starwinds_magnetogram/zdi_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 470280d..c53be0d 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -509,7 +509,7 @@ class ZdiMagnetogram:
         if require_l_term:
             result *= self.degrees_l / (self.degrees_l + 1)
 
-        return np.real_if_close(result)
+        return np.real(result)
 
     def _dplm(self, p_lm, points_polar):
         """
-- 
2.43.0


From bd43fd07496eb394677fbdcbe79c4caf16509161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 18/38] fix: Parker wind just outside the sonic point is on the
 supersonic branch

---
 starwinds_magnetogram/parker_solution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 51976d5..8af0c18 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -48,10 +48,12 @@ class AnalyticBase:
         lambertw_argument = -np.exp(-_parker_rhs - 1)
 
         def _lambertw(branch):
-            # At the sonic point the argument is the branch point -1/e, where both branches are -1.
-            # The rounded argument may lie beyond the branch point, where lambertw is complex or nan.
-            if lambertw_argument <= -np.exp(-1):
-                return -1.0
+            # Near the sonic point the argument is close to the branch point -1/e, where scipy's branch -1 is
+            # inaccurate and the rounded argument may lie beyond the branch point. Use the series in p there.
+            if _parker_rhs < 1e-6:
+                p = np.sqrt(max(0.0, -2 * np.expm1(-_parker_rhs)))
+                p = p if branch == 0 else -p
+                return -1 + p - p**2 / 3 + 11 / 72 * p**3 - 43 / 540 * p**4
             return np.real(lambertw(lambertw_argument, branch))
 
         if not all_sols:
-- 
2.43.0


From 49ca34712e6a86491af86e2c5447eb235267c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 19/38] fix: tick labels that are no power of ten are left
 alone when relabelling

---
 .../colorbar_manual_tickmarks.py                  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/starwinds_magnetogram/colorbar_manual_tickmarks.py b/starwinds_magnetogram/colorbar_manual_tickmarks.py
index 2f0cbf7..5f77928 100644
--- a/starwinds_magnetogram/colorbar_manual_tickmarks.py
+++ b/starwinds_magnetogram/colorbar_manual_tickmarks.py
@@ -1,3 +1,5 @@
+import re
+
 import matplotlib.pyplot as plt
 import numpy as np
 
@@ -105,14 +107,13 @@ def tesla_to_gauss(tickmark_string, exponent_shift=4):
     :param exponent_shift: Exponent shift (4 converts Tesla to Gauss)
     :return:
     """
-    position_0 = tickmark_string.find("{") + 1
-    position_1 = tickmark_string.find("}")
-    if position_1 < position_0:
+    # Only the exponent of a power of ten is shifted; anything else in braces is part of the text.
+    match = re.search(r"(?<=10\^\{)\s*[+-]?\d+\s*(?=\})", tickmark_string)
+    if match is None:
         return tickmark_string
 
-    string_left = tickmark_string[:position_0]
-    string_middle = tickmark_string[position_0:position_1]
-    string_right = tickmark_string[position_1:]
+    string_left = tickmark_string[:match.start()]
+    string_middle = match.group()
+    string_right = tickmark_string[match.end():]
 
     return string_left + str(int(string_middle) + exponent_shift) + string_right
-
-- 
2.43.0


From d562f45722ad5c60317040db1b237218ce1977fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 20/38] fix: minor ticks above 1e18 no longer overflow

---
 starwinds_magnetogram/colorbar_manual_tickmarks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/colorbar_manual_tickmarks.py b/starwinds_magnetogram/colorbar_manual_tickmarks.py
index 5f77928..4cfb77a 100644
--- a/starwinds_magnetogram/colorbar_manual_tickmarks.py
+++ b/starwinds_magnetogram/colorbar_manual_tickmarks.py
@@ -92,8 +92,8 @@ def generate_minor(log10_min, log10_max, log10_step):
 
     all_positive = []
     for exp in range(log10_min, log10_max + 2):
-        all_positive.extend(decimals * 10 ** (exp - 1))
-        all_positive.extend(-decimals * 10 ** (exp - 1))
+        all_positive.extend(decimals * 10.0 ** (exp - 1))
+        all_positive.extend(-decimals * 10.0 ** (exp - 1))
 
     all_values = np.unique(np.sort(all_positive))
 
-- 
2.43.0


From bea76490ee56f3592976efba198fa7ecf43167fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:28 +0000
Subject: [PATCH 21/38] fix: LSD stack plot of a single profile

---
 starwinds_magnetogram/plot_lsd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starwinds_magnetogram/plot_lsd.py b/starwinds_magnetogram/plot_lsd.py
index 326795e..64884f0 100644
--- a/starwinds_magnetogram/plot_lsd.py
+++ b/starwinds_magnetogram/plot_lsd.py
@@ -109,6 +109,7 @@ def plot_lsd_stack(data_stack, name_stack, y_lim=None):
     if len(fig.axes) != len(data_stack):
         log.debug('Create new plot with %d subplots' % len(data_stack))
         fig, axs = plt.subplots(len(data_stack), figsize=(12, len(data_stack)), sharex=True)
+        axs = np.atleast_1d(axs)  # A single subplot comes without an array.
     else:
         log.debug('Reuse existing plot (with 3 subplots).')
 
-- 
2.43.0


From 4c2b88bac78af95389b32a349bcaa539f899a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 22/38] fix: energy summary draws shares of the whole, not each
 pie normalised

---
 starwinds_magnetogram/plot_zdi.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 4218e53..e63742e 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -10,6 +10,19 @@ import starwinds_magnetogram.geometry
 import starwinds_magnetogram.plots
 
 
+def _pie_of_shares(ax, shares, **kwargs):
+    """
+    Pie chart of shares of a whole. What the shares leave of the whole is left blank.
+    :return: the wedges
+    """
+    shares = np.nan_to_num(shares)  # A share of nothing is not a number.
+    rest = max(0, 1 - np.sum(shares))
+    wedges, _, percentages = ax.pie(np.append(shares, rest), **kwargs)
+    wedges[-1].set_visible(False)
+    percentages[-1].set_visible(False)
+    return wedges[:-1]
+
+
 def plot_energy_summary(zc, axs=None):
 
     if axs is None:
@@ -22,7 +35,7 @@ def plot_energy_summary(zc, axs=None):
     ax = axs[0]
     ax.set_title("Total energy")
 
-    w, *_ = ax.pie([results['magnetogram.poloidal.energy.fraction'],
+    w = _pie_of_shares(ax, [results['magnetogram.poloidal.energy.fraction'],
                     results['magnetogram.toroidal.energy.fraction'],],
                        radius=2,
                        autopct='%1.0f%%',
@@ -35,7 +48,7 @@ def plot_energy_summary(zc, axs=None):
     wedges = list(w)
     wlabels = ["poloidal", "toroidal"]
 
-    w, *_ = ax.pie([results['magnetogram.radial.energy.fraction'],],
+    w = _pie_of_shares(ax, [results['magnetogram.radial.energy.fraction'],],
                    radius=2,
                    autopct='%1.0f%%',
                    pctdistance=1,
@@ -48,7 +61,7 @@ def plot_energy_summary(zc, axs=None):
     wedges.extend(w)
     wlabels.append("radial")
 
-    w, *_ = ax.pie([results['magnetogram.total.energy.axisymmetric.fraction'],],
+    w = _pie_of_shares(ax, [results['magnetogram.total.energy.axisymmetric.fraction'],],
                    radius=1,
                    # labels=("axisymmetric",),
                    autopct='%1.0f%%',
@@ -65,7 +78,7 @@ def plot_energy_summary(zc, axs=None):
     ax = axs[1]
     ax.set_title("Poloidal energy")
     labels = ("dipole", "quadrupole", "octopole")
-    w, *_ = ax.pie([results[f'magnetogram.total.energy.{c}.fraction'] for c in labels],
+    w = _pie_of_shares(ax, [results[f'magnetogram.total.energy.{c}.fraction'] for c in labels],
            # labels=labels,
            radius=2,
            autopct='%1.1f%%',
@@ -78,7 +91,7 @@ def plot_energy_summary(zc, axs=None):
     wedges = list(w)
     wlabels = ["dipole", "quadrupole", "octopole"]
 
-    w, *_ = ax.pie([results['magnetogram.total.energy.poloidal.axisymmetric.fraction'],],
+    w = _pie_of_shares(ax, [results['magnetogram.total.energy.poloidal.axisymmetric.fraction'],],
            radius=1,
            # labels=("axisymmetric",),
            autopct='%1.0f%%',
@@ -96,7 +109,7 @@ def plot_energy_summary(zc, axs=None):
         ax = axs[2]
         ax.set_title("Toroidal energy")
         labels = ("l1", "l2", "l3")
-        w, *_ = ax.pie([results[f'magnetogram.total.energy.toroidal.{c}.fraction'] for c in labels],
+        w = _pie_of_shares(ax, [results[f'magnetogram.total.energy.toroidal.{c}.fraction'] for c in labels],
                # labels=labels,
                radius=2,
                autopct='%1.1f%%',
@@ -109,7 +122,7 @@ def plot_energy_summary(zc, axs=None):
         wedges = list(w)
         wlabels = ["$l1$", "$l2$", "$l3$"]
 
-        w, *_ = ax.pie([results['magnetogram.total.energy.toroidal.axisymmetric.fraction'],],
+        w = _pie_of_shares(ax, [results['magnetogram.total.energy.toroidal.axisymmetric.fraction'],],
                radius=1,
                # labels=("axisymmetric",),
                autopct='%1.0f%%',
-- 
2.43.0


From 3032593e1679fa0941e6964e02805fe91122b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 23/38] fix: label the ticks of the energy matrix with the
 order they stand at

With negative orders included, ticks between columns were labelled with the
truncated order, e.g. -5 at the order -5.5.
---
 starwinds_magnetogram/plot_zdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index e63742e..408586f 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -197,7 +197,7 @@ def _plot_energy(zc, name="total", negative_orders=False, ax=None):
 
     if energy.shape[0] != energy.shape[1]:
         # This means that negative orders are included.
-        ax.set_xticklabels(np.array(ax.get_xticks() - energy.shape[1]//2, dtype=int))
+        ax.set_xticklabels(["%g" % order for order in ax.get_xticks() - energy.shape[1]//2])
     ax.grid(which='minor', axis='both')
 
     divider = make_axes_locatable(ax)
-- 
2.43.0


From 40fe9356d40b548bfc40ddf9db3d6912ee91a547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:39 +0000
Subject: [PATCH 24/38] fix: the panels of a three-component plot share one
 colour scale with their colour bar

A panel of one sign (say the azimuthal field of an axisymmetric magnetogram)
had its own colours and limits, and the single colour bar is that of the last
panel. The symmetric argument of plot_zdi_components is passed on.
---
 starwinds_magnetogram/plot_zdi.py | 3 ++-
 starwinds_magnetogram/plots.py    | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 408586f..1e0dc8a 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -285,7 +285,8 @@ def plot_zdi_components(mgm, radius=1, axs=None, zg=None, symmetric=None, cmap=N
     Brpa = np.array([g(polar_centers, azimuth_centers) for g in getter_fns])
 
     axs = starwinds_magnetogram.plots.plot_components(polar_centers, azimuth_centers,
-                                                        Brpa, axs, azimuth_corners, polar_corners, radius)
+                                                        Brpa, axs, azimuth_corners, polar_corners, radius,
+                                                        symmetric=symmetric)
 
     return axs
 
diff --git a/starwinds_magnetogram/plots.py b/starwinds_magnetogram/plots.py
index b7b984c..1f7453e 100644
--- a/starwinds_magnetogram/plots.py
+++ b/starwinds_magnetogram/plots.py
@@ -1,4 +1,5 @@
 import numpy as np
+from matplotlib.colors import Normalize
 import logging
 log = logging.getLogger(__name__)
 
@@ -48,7 +49,11 @@ def plot_components(polar_centers, azimuth_centers, field_centers, axs, azimuth_
     latex_names = ('B_r', r'B_\theta', r'B_\phi')
     extremum_markers = ('ox', '^v', '<>')
 
+    # The panels share a colour bar, so they have to share a colour scale.
     abs_max = np.max(np.abs(field_centers))
+    if symmetric is None:
+        symmetric = np.min(field_centers) < 0 < np.max(field_centers)
+    norm = Normalize(vmin=-abs_max if symmetric else np.min(field_centers), vmax=abs_max)
     axs[0].figure.subplots_adjust(right=0.8)  # Make space for colorbar.
     for ax, Bi, latex_name, markers in zip(axs, field_centers, latex_names, extremum_markers):
         log.debug("Axis " + str(ax))
@@ -57,7 +62,8 @@ def plot_components(polar_centers, azimuth_centers, field_centers, axs, azimuth_
                                                 polar_centers, azimuth_centers, Bi,
                                                 polar_corners=polar_corners, azimuth_corners=azimuth_corners,
                                                 legend_str=latex_name,
-                                                abs_max=abs_max,
+                                                norm=norm,
+                                                zero_contour=np.min(Bi) < 0 < np.max(Bi),
                                                 symmetric=symmetric)
 
         add_extrema(polar_centers, azimuth_centers, Bi, ax, legend_str=latex_name, markers=markers)
-- 
2.43.0


From 92d80c3f32831045d0fc48df2cc50d9e710d301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 25/38] fix: slices of the potential field normal to y and z

plot_slice failed unless the normal was x, and labelled the horizontal axis of
that plane, y, as x.
---
 starwinds_magnetogram/plot_pfss.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/plot_pfss.py b/starwinds_magnetogram/plot_pfss.py
index 4e9b187..daa3e67 100644
--- a/starwinds_magnetogram/plot_pfss.py
+++ b/starwinds_magnetogram/plot_pfss.py
@@ -78,15 +78,17 @@ def plot_slice(coefficients, normal="x", rmax=5,
     fig.colorbar(im).set_label('Radial field strength')
 
     ax.set_aspect('equal')
-    ax.set_xlabel(r'Distance $x/r_{\star}$')
-    ax.set_ylabel(r'Distance $z/r_{\star}$')
+    # The two axes lying in the plane, and the field along them.
+    (n1, f1), (n2, f2) = [axis for axis in zip("xyz", (fx, fy, fz)) if axis[0] != normal]
+    ax.set_xlabel(r'Distance $%s/r_{\star}$' % n1)
+    ax.set_ylabel(r'Distance $%s/r_{\star}$' % n2)
 
     # Add star and source surface.
     radial_distance = np.squeeze((px**2 + py**2 + pz**2)**.5)
     ax.contour(p1[:, :], p2[:, :], radial_distance, levels=[radius_star, radius_source_surface], colors='k')
 
     # Add field lines:
-    ax.streamplot(py[..., 0], pz[..., 0], fy[..., 0], fz[..., 0], color='k')
+    ax.streamplot(p1, p2, f1[..., 0], f2[..., 0], color='k')
 
     return fig, ax
 
-- 
2.43.0


From 6c40e15627647a5e4f1ed06aee8f35b7c369656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 26/38] fix: legend of stream traces shows the line widths of
 the plot

The widest line of the plot stands for the largest tangential field, the
widest line of the legend stood for the last tick value above it.
---
 starwinds_magnetogram/plot_pfss.py | 2 +-
 starwinds_magnetogram/plot_zdi.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/plot_pfss.py b/starwinds_magnetogram/plot_pfss.py
index daa3e67..4a29301 100644
--- a/starwinds_magnetogram/plot_pfss.py
+++ b/starwinds_magnetogram/plot_pfss.py
@@ -140,7 +140,7 @@ def plot_streamtraces(coefficients, geometry=ZdiGeometry()):
 
     locator = MaxNLocator(nbins=3, prune="lower")
     line_values = locator.tick_values(np.min(B_tangential_mag), np.max(B_tangential_mag))
-    line_thicknesses = 3 * line_values / np.max(line_values)
+    line_thicknesses = 3 * line_values / B_tangential_mag.max()  # As in the plot.
 
     custom_lines = [Line2D([0], [0], color='k', lw=l) for l in line_thicknesses]
     custom_strs = [r"$B_\perp=%4.1f$" % x for x in line_values]
diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 1e0dc8a..6682050 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -401,7 +401,7 @@ def plot_streamtraces(mgm, geometry=None, ax=None):
 
         locator = MaxNLocator(nbins=3, prune="lower")
         line_values = locator.tick_values(np.min(B_tangential_mag), np.max(B_tangential_mag))
-        line_thicknesses = 3 * line_values / np.max(line_values)
+        line_thicknesses = 3 * line_values / B_tangential_mag.max()  # As in the plot.
 
         legend_items += [Line2D([0], [0], color='k', lw=l) for l in line_thicknesses]
         legend_strs += [r"$B_\perp=%4.1f$" % x for x in line_values]
-- 
2.43.0


From 1b36c94206f94fcdcede3c1c8fb8f0cfe56ce6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 27/38] fix: the polar angle of the origin is 0, as documented

---
 starwinds_magnetogram/coordinate_transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/coordinate_transforms.py b/starwinds_magnetogram/coordinate_transforms.py
index 695cd6b..eaf7a33 100644
--- a/starwinds_magnetogram/coordinate_transforms.py
+++ b/starwinds_magnetogram/coordinate_transforms.py
@@ -18,7 +18,7 @@ def spherical_coordinates_from_rectangular(px, py, pz):
     :return: radial, polar and azimuth coordinates
     """
     pr = (px**2 + py**2 + pz**2)**(1/2)
-    pp = np.arccos(np.divide(pz, pr, out=np.zeros_like(pr), where=pr != 0))
+    pp = np.arccos(np.divide(pz, pr, out=np.ones_like(pr), where=pr != 0))
     pa = np.arctan2(py, px)
 
     assert not np.any(np.isnan(pp))
-- 
2.43.0


From 7c7a9a08b5782f01bf07cfd121c11331ba36dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 28/38] fix: tick marks of symlog colour bars stand at the
 values of their labels

The axis of a colour bar has been in the units of the values since long; marks
were placed by the fraction of the bar instead (and by the limits of the x
axis on vertical bars), e.g. the label 10^2 at 757 on a bar from -1000 to 1000.
---
 .../colorbar_manual_tickmarks.py              | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/starwinds_magnetogram/colorbar_manual_tickmarks.py b/starwinds_magnetogram/colorbar_manual_tickmarks.py
index 4cfb77a..4f440ef 100644
--- a/starwinds_magnetogram/colorbar_manual_tickmarks.py
+++ b/starwinds_magnetogram/colorbar_manual_tickmarks.py
@@ -50,21 +50,18 @@ def fully_manual_tickmarks(axis, norm, major_values, major_labels, minor_values)
     :param minor_values:
     :return:
     """
-    ax = axis.axes
-    xlim = ax.get_xlim()
-    xmin = xlim[0]
-    xrange = xlim[1] - xlim[0]
+    # The axis of a colorbar is in the units of the values.
+    lower, upper = sorted(axis.get_view_interval())
+    slack = 1e-9 * (upper - lower)  # The ends of the axis are subject to rounding.
 
-    xticks_major = xrange * norm(major_values) + xmin
-    axis.set_ticks(xticks_major)
-    axis.set_ticklabels(major_labels)
+    def inside(value):
+        return lower - slack <= value <= upper + slack
 
-    xticks_minor = xrange * norm(minor_values) + xmin
+    major = [(v, label) for v, label in zip(major_values, major_labels) if inside(v)]
+    axis.set_ticks([v for v, _ in major])
+    axis.set_ticklabels([label for _, label in major])
 
-    xticks_minor = xticks_minor[xticks_minor >= xlim[0]]
-    xticks_minor = xticks_minor[xticks_minor <= xlim[1]]
-
-    axis.set_ticks(xticks_minor, minor=True)
+    axis.set_ticks([v for v in minor_values if inside(v)], minor=True)
 
 
 def generate_major(log10_min, log10_max, log10_step):
-- 
2.43.0


From 50ac9928b67c71ef9a527c9baa67f03f9854c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 29/38] fix: coefficients with l+m > 170 no longer vanish when
 the factorials overflow

---
 starwinds_magnetogram/pfss_magnetogram.py | 13 +++++++++----
 starwinds_magnetogram/zdi_magnetogram.py  |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/starwinds_magnetogram/pfss_magnetogram.py b/starwinds_magnetogram/pfss_magnetogram.py
index 3ff5e0a..01cee7c 100644
--- a/starwinds_magnetogram/pfss_magnetogram.py
+++ b/starwinds_magnetogram/pfss_magnetogram.py
@@ -10,6 +10,13 @@ default_radius_star = 1
 default_radius_source_surface = 2.5
 
 
+def factorial_ratio(deg_l, ord_m):
+    r"""
+    Calculate $(\ell - m)! / (\ell + m)!$; the factorials themselves overflow when $\ell + m > 170$.
+    """
+    return np.exp(sp.special.gammaln(deg_l - ord_m + 1) - sp.special.gammaln(deg_l + ord_m + 1))
+
+
 def theta_lm(deg_l, ord_m, points_polar):
     r"""
     Calculate $\Theta_{\ell m}(\theta)$
@@ -24,8 +31,7 @@ def theta_lm(deg_l, ord_m, points_polar):
         plm = sp.special.lpmv(ord_m, deg_l, np.cos(points_polar))
         # Correction (scaling)
         d0 = 0 + (ord_m == 0)
-        clm = (-1) ** ord_m * np.sqrt(sp.special.factorial(deg_l - ord_m)
-                                      / sp.special.factorial(deg_l + ord_m)) * np.sqrt(2 - d0)
+        clm = (-1) ** ord_m * np.sqrt(factorial_ratio(deg_l, ord_m)) * np.sqrt(2 - d0)
         value = clm * plm
         return value
 
@@ -66,8 +72,7 @@ def calculate_all_theta(degree_l, order_m, points_polar, scipy=True):
     Pmn_cos_theta_result, Pmn_d_cos_theta_result = calculate_lpmn(degree_l, order_m, points_polar)
 
     d0 = 0 + (np.asarray(order_m) == 0)
-    clm = (-1) ** order_m * np.sqrt(sp.special.factorial(degree_l - order_m)
-                                  / sp.special.factorial(degree_l + order_m)) * np.sqrt(2 - d0)
+    clm = (-1) ** order_m * np.sqrt(factorial_ratio(degree_l, order_m)) * np.sqrt(2 - d0)
 
     buffered_theta_scipy = Pmn_cos_theta_result * clm
     buffered_dtheta_scipy = Pmn_d_cos_theta_result * clm
diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index c53be0d..92967ed 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -617,8 +617,8 @@ def get_c_lm(degrees_l, orders_m, method='low_order'):
         c_lm2 = (
                 (2 * degrees_l + 1)
                 / (4 * np.pi)
-                * sp.special.factorial(degrees_l - orders_m)
-                / sp.special.factorial(degrees_l + orders_m)
+                # The factorials themselves overflow when l+m > 170.
+                * np.exp(sp.special.gammaln(degrees_l - orders_m + 1) - sp.special.gammaln(degrees_l + orders_m + 1))
         )
     else:
         # This takes better care of the cancellations in (l-m)!/(l+m)!
-- 
2.43.0


From b967d8082d38b011bd8477cfc9fedd38be708448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 30/38] fix: sums, products, powers and scalings of real
 coefficient sets keep complex values

---
 starwinds_magnetogram/coefficients.py | 46 +++++++++++----------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index cefd054..ff9ad66 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -151,10 +151,7 @@ class Coefficients(object):
 
     def __pow__(self, power, modulo=None):
         assert modulo is None, "Modulo is not supported."
-        output = empty_like(self)
-        for (degree, order), coeffs in self.contents():
-            output.append(degree, order, coeffs**power)
-        return output
+        return _with_values(self, {key: coeffs**power for key, coeffs in self.contents()})
 
     def __truediv__(self, value): return multiply(self, value**-1)
 
@@ -245,6 +242,18 @@ def empty_like(shc):
     return Coefficients(shc.default_coefficients)
 
 
+def _with_values(shc, values):
+    """
+    Get set of spherical harmonics coefficients with the given values, and a type of coefficients that
+    can hold them: complex values are not cut down to their real part because shc itself is real.
+    """
+    dtype = np.result_type(shc.default_coefficients, *{value.dtype for value in values.values()})
+    output = Coefficients(shc.default_coefficients.astype(dtype))
+    for (degree, order), value in values.items():
+        output.append(degree, order, value)
+    return output
+
+
 def zeros_like(shc):
     """
     Get zero-filled set of spherical harmonics coefficients with same type of coefficients.
@@ -270,13 +279,8 @@ def copy(shc):
 def scale(shc, scale_function, power=1):
     """Make a scaled copy of the coefficients. Scale by applying function to each element."""
 
-    output = copy(shc)
-
-    for (degree, order) in shc.coefficients:
-        factor = scale_function(degree, order) ** power
-        output.coefficients[(degree, order)] *= factor
-
-    return output
+    return _with_values(shc, {(degree, order): coeffs * scale_function(degree, order) ** power
+                              for (degree, order), coeffs in shc.contents()})
 
 
 def truncated(shc, degree_max):
@@ -308,12 +312,7 @@ def add(shc0, shc1):
     # Get all degree, order pairs from the objects
     keys = set.union(*[set(a.coefficients) for a in (shc0, shc1)])
 
-    shc = empty_like(shc0)
-    for degree, order in keys:
-        v = shc0.get(degree, order) + shc1.get(degree, order)
-        shc.append(degree, order, v)
-
-    return shc
+    return _with_values(shc0, {key: shc0.get(*key) + shc1.get(*key) for key in keys})
 
 
 def multiply(shc, value):
@@ -325,22 +324,13 @@ def multiply(shc, value):
     """
     if type(value) != Coefficients:
         # Assume scalar
-        output = empty_like(shc)
-        for (degree, order), coeffs in shc.contents():
-            output.append(degree, order, coeffs * value)
-
-        return output
+        return _with_values(shc, {key: coeffs * value for key, coeffs in shc.contents()})
 
     # Multiply coefficients of two objects.
     assert shc.default_coefficients.shape == value.default_coefficients.shape, "Incompatible coefficients."
 
-    result = empty_like(shc)
     keys = set.union(*[set(a.coefficients) for a in (shc, value)])  # Get all degree, order pairs from the object
-    for degree, order in keys:
-        v = shc.get(degree, order) * value.get(degree, order)
-        result.append(degree, order, v)
-
-    return result
+    return _with_values(shc, {key: shc.get(*key) * value.get(*key) for key in keys})
 
 
 
-- 
2.43.0


From 309c7ea938d601408a9989f58e617eef81e22bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 31/38] fix: real coefficient sets can be rotated

---
 starwinds_magnetogram/rotate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/rotate.py b/starwinds_magnetogram/rotate.py
index 882ce94..f985b82 100644
--- a/starwinds_magnetogram/rotate.py
+++ b/starwinds_magnetogram/rotate.py
@@ -17,14 +17,16 @@ def rotate_magnetogram(magnetogram, rotation):
     :return: Rotated magnetogram
     """
 
-    rotated_magnetogram = shc.empty_like(magnetogram)
+    # Rotated coefficients are complex also when the coefficients given are real.
+    default_coefficients = magnetogram.default_coefficients + 0j
+    rotated_magnetogram = shc.Coefficients(default_coefficients)
 
     for deg_l_in in range(magnetogram.degree_max + 1):
         order_m_max = deg_l_in
 
         for order_m_out in range(-order_m_max, order_m_max + 1):
 
-            coeff_out = magnetogram.default_coefficients
+            coeff_out = default_coefficients.copy()
 
             for order_m_in in range(-order_m_max, order_m_max + 1):
                 wde = spherical_functions.Wigner_D_element(rotation, deg_l_in, order_m_in, order_m_out)
-- 
2.43.0


From 039b15359fff0c450d61e092a97c97121ef3d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 32/38] fix: drawing on the same axes again keeps the north up
 and the grid on

---
 starwinds_magnetogram/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/plots.py b/starwinds_magnetogram/plots.py
index 1f7453e..bdb2d3a 100644
--- a/starwinds_magnetogram/plots.py
+++ b/starwinds_magnetogram/plots.py
@@ -31,8 +31,8 @@ def plot_equirectangular(geometry, value, ax, vmin=None, vmax=None, cmap='RdBu_r
     ax.set_yticks(180 / np.pi * np.linspace(corners_polar[0, 0], corners_polar[-1, -1], 5))
     ax.set_ylabel(r'Polar angle $\theta$')
     ax.set_aspect('equal')
-    ax.invert_yaxis()
-    ax.grid()
+    ax.yaxis.set_inverted(True)  # Also when drawing on the same axes again.
+    ax.grid(True)
 
     return img
 
@@ -166,8 +166,8 @@ def plot_magnetic_field(ax,
 
     ax.xaxis.set_ticks(np.arange(0, 361, 45))
     ax.yaxis.set_ticks(np.arange(0, 181, 30))
-    ax.grid()
-    ax.invert_yaxis()
+    ax.grid(True)
+    ax.yaxis.set_inverted(True)  # Also when drawing on the same axes again.
     ax.set_aspect('equal')
     ax.set_xlabel("Azimuth angle (deg)")
     ax.set_ylabel("Polar angle (deg)")
-- 
2.43.0


From 2f0df2cfa774d2cb37cb7e8fc6cba84afca717eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 33/38] fix: the zero contour is drawn at zero, not at levels
 of matplotlib's choice

---
 starwinds_magnetogram/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/plots.py b/starwinds_magnetogram/plots.py
index bdb2d3a..6d34f6a 100644
--- a/starwinds_magnetogram/plots.py
+++ b/starwinds_magnetogram/plots.py
@@ -157,7 +157,7 @@ def plot_magnetic_field(ax,
         zero_contour = ax.contour(np.rad2deg(azimuth_centers),
                                   np.rad2deg(polar_centers),
                                   field_centers,
-                                  0,
+                                  levels=[0],
                                   # linewidths=1,
                                   colors='k',
                                   )
-- 
2.43.0


From e453ebc02e51d601d15df96ff84b6f5e52a97ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 34/38] fix: the colour map given for the field components is
 used

---
 starwinds_magnetogram/plot_zdi.py | 2 +-
 starwinds_magnetogram/plots.py    | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 6682050..b5b8963 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -286,7 +286,7 @@ def plot_zdi_components(mgm, radius=1, axs=None, zg=None, symmetric=None, cmap=N
 
     axs = starwinds_magnetogram.plots.plot_components(polar_centers, azimuth_centers,
                                                         Brpa, axs, azimuth_corners, polar_corners, radius,
-                                                        symmetric=symmetric)
+                                                        symmetric=symmetric, cmap=cmap)
 
     return axs
 
diff --git a/starwinds_magnetogram/plots.py b/starwinds_magnetogram/plots.py
index 6d34f6a..5ed551f 100644
--- a/starwinds_magnetogram/plots.py
+++ b/starwinds_magnetogram/plots.py
@@ -45,7 +45,7 @@ def place_colorbar_axis_right(ax, dx=.22):
 
 
 def plot_components(polar_centers, azimuth_centers, field_centers, axs, azimuth_corners=None, polar_corners=None,
-                    radius=1, symmetric=None):
+                    radius=1, symmetric=None, cmap=None):
     latex_names = ('B_r', r'B_\theta', r'B_\phi')
     extremum_markers = ('ox', '^v', '<>')
 
@@ -64,7 +64,8 @@ def plot_components(polar_centers, azimuth_centers, field_centers, axs, azimuth_
                                                 legend_str=latex_name,
                                                 norm=norm,
                                                 zero_contour=np.min(Bi) < 0 < np.max(Bi),
-                                                symmetric=symmetric)
+                                                symmetric=symmetric,
+                                                cmap=cmap)
 
         add_extrema(polar_centers, azimuth_centers, Bi, ax, legend_str=latex_name, markers=markers)
 
-- 
2.43.0


From d27f85f65d05b4e338e49c325dcd75879236f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 35/38] fix: the colour scale of an energy matrix covers its
 energies

---
 starwinds_magnetogram/plot_zdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index b5b8963..2f3f17f 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -182,7 +182,7 @@ def _plot_energy(zc, name="total", negative_orders=False, ax=None):
         vmax = 1
     else:
         vmax = energy.max()
-        vmin = (energy[energy > 0]).max()**-1
+        vmin = energy[energy > 0].min()
     img = ax.imshow(energy,
                     # cmap='Greys',
                     norm=colors.LogNorm(vmin=vmin, vmax=vmax,))
-- 
2.43.0


From 68f35e3ad44ba6322d2df96c3793d972f7477ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 36/38] fix: order labels of the energy matrix follow the ticks
 when the axes are resized

---
 starwinds_magnetogram/plot_zdi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 2f3f17f..e53bbff 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -3,7 +3,7 @@ log = logging.getLogger(__name__)
 
 import numpy as np
 from matplotlib import pyplot as plt, colors
-from matplotlib.ticker import IndexLocator
+from matplotlib.ticker import FuncFormatter, IndexLocator
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 
 import starwinds_magnetogram.geometry
@@ -197,7 +197,7 @@ def _plot_energy(zc, name="total", negative_orders=False, ax=None):
 
     if energy.shape[0] != energy.shape[1]:
         # This means that negative orders are included.
-        ax.set_xticklabels(["%g" % order for order in ax.get_xticks() - energy.shape[1]//2])
+        ax.xaxis.set_major_formatter(FuncFormatter(lambda x, pos: "%g" % (x - energy.shape[1]//2)))
     ax.grid(which='minor', axis='both')
 
     divider = make_axes_locatable(ax)
-- 
2.43.0


From d0551a2bacde027d4dea1390af315de56587d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 37/38] fix: no marks beyond the end of a symlog colour bar
 that starts at zero

---
 starwinds_magnetogram/colorbar_manual_tickmarks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/colorbar_manual_tickmarks.py b/starwinds_magnetogram/colorbar_manual_tickmarks.py
index 4f440ef..f961c7c 100644
--- a/starwinds_magnetogram/colorbar_manual_tickmarks.py
+++ b/starwinds_magnetogram/colorbar_manual_tickmarks.py
@@ -52,10 +52,10 @@ def fully_manual_tickmarks(axis, norm, major_values, major_labels, minor_values)
     """
     # The axis of a colorbar is in the units of the values.
     lower, upper = sorted(axis.get_view_interval())
-    slack = 1e-9 * (upper - lower)  # The ends of the axis are subject to rounding.
+    slack = 1e-9  # The ends of the axis are subject to rounding. As a fraction of the drawn length.
 
     def inside(value):
-        return lower - slack <= value <= upper + slack
+        return norm(lower) - slack <= norm(value) <= norm(upper) + slack
 
     major = [(v, label) for v, label in zip(major_values, major_labels) if inside(v)]
     axis.set_ticks([v for v, _ in major])
-- 
2.43.0


From 37dfd75758442e509e4f2b6184d85411c4e2ff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:40 +0000
Subject: [PATCH 38/38] fix: get_c_lm by the second method was wrong for
 negative orders

---
 starwinds_magnetogram/zdi_magnetogram.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 92967ed..7cfa13b 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -624,7 +624,9 @@ def get_c_lm(degrees_l, orders_m, method='low_order'):
         # This takes better care of the cancellations in (l-m)!/(l+m)!
         @np.vectorize
         def factorial_expression(l, m):
-            return np.exp(-np.sum(np.log(np.arange(l - m + 1, l + m + 1))))
+            # For negative orders the expression is the inverse of that for the positive order.
+            log_ratio = np.sum(np.log(np.arange(l - abs(m) + 1, l + abs(m) + 1)))
+            return np.exp(-np.sign(m) * log_ratio)
 
         c_lm2 = (2 * degrees_l + 1) / (4 * np.pi) * factorial_expression(degrees_l, orders_m)
 
-- 
2.43.0

