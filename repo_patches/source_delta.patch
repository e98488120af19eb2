From 431cbbfee320d29b76357b6a3ab88d0eb77baa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 01/58] fix: Realization.__eq__ compares the tag sets of both
 realizations

---
 pyHalo/single_realization.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 283367d..e55efc9 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -817,11 +817,7 @@ class Realization(object):
         """
         tags = self._tags(self.halos)
         other_tags = other_reealization._tags()
-        for tag in other_tags:
-            if tag not in tags:
-                return False
-        else:
-            return True
+        return set(tags) == set(other_tags)
 
     def plot(self, ax, annotation='', color_normalization=6, marker_size_normalization=7.5, marker_size_scaling=1.0,
              view_init_1=30.0, view_init_2=70.0, r_max=None, ray_interp_x_list=None, ray_interp_y_list=None):
-- 
2.43.0


From 0feff83361f91f67afa3d36059e56e1f1a6db285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 02/58] fix: shift_background_to_source moves copies of the
 halos and keeps foreground halos

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py |  9 +++++++++
 pyHalo/Halos/halo_base.py                 | 19 +++++++++++++++++++
 pyHalo/single_realization.py              | 21 +++++++--------------
 3 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index 710603f..525fba5 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -298,6 +298,15 @@ class Hybrid(Halo):
                                      self.tnfw_halo.is_subhalo, self.tnfw_halo.lens_cosmo,
                                      self.tnfw_halo._args, self.tnfw_halo.unique_tag)
 
+    def shifted_copy(self, dx, dy):
+        """
+        See documentation in base class (Halos/halo_base.py)
+        """
+        halo = super(Hybrid, self).shifted_copy(dx, dy)
+        halo.tnfw_halo = self.tnfw_halo.shifted_copy(dx, dy)
+        halo.tnfwc_halo = self.tnfwc_halo.shifted_copy(dx, dy)
+        return halo
+
     @property
     def vmax_nfw(self):
         """
diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index 9d01995..b9a65fb 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import copy
 import numpy as np
 from scipy.integrate import quad
 
@@ -57,6 +58,24 @@ class Halo(ABC):
         """
         self._args.update(kwargs_halo)
 
+    # attributes in which halo classes cache lens model keyword arguments that include the position
+    _position_dependent_cache = ('_kwargs_lenstronomy', '_lenstronomy_args', '_lenstronomy_args_split',
+                                 '_lenstronomy_params')
+
+    def shifted_copy(self, dx, dy):
+        """
+        Returns a copy of this halo displaced by (dx, dy); the halo itself does not move
+        :param dx: angular offset along x in arcsec
+        :param dy: angular offset along y in arcsec
+        :return: a new halo with the same properties (and unique_tag) at the new position
+        """
+        halo = copy(self)
+        halo.x += dx
+        halo.y += dy
+        for name in self._position_dependent_cache:
+            halo.__dict__.pop(name, None)
+        return halo
+
     @property
     def rescale_norm(self):
         return self._rescale_norm
diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index e55efc9..41e2380 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -396,26 +396,19 @@ class Realization(object):
         if self._has_been_shifted:
             return self
 
-        halos_out = []
-        to_shift = []
-        for halo in self.halos:
-            if halo.fixed_position:
-                halos_out.append(halo)
-                continue
-            if halo.z < min_shift_redshift:
-                continue
-            to_shift.append(halo)
-            halos_out.append(halo)
+        halos_out = list(self.halos)
+        to_shift = [i for i, halo in enumerate(self.halos)
+                    if not halo.fixed_position and halo.z >= min_shift_redshift]
 
         if to_shift:
             # D_C_z is memoized, so this loop is cheap; the win is evaluating the ray
             # interpolators on the whole array at once (interp1d is ~100x faster batched)
-            Dc = np.array([self.lens_cosmo.cosmo.D_C_z(h.z) for h in to_shift])
+            Dc = np.array([self.lens_cosmo.cosmo.D_C_z(self.halos[i].z) for i in to_shift])
             xshift = np.atleast_1d(ray_interp_x(Dc))
             yshift = np.atleast_1d(ray_interp_y(Dc))
-            for halo, xs, ys in zip(to_shift, xshift, yshift):
-                halo.x += float(xs)
-                halo.y += float(ys)
+            # only the halos of the new realization move, this realization still contains the originals
+            for i, xs, ys in zip(to_shift, xshift, yshift):
+                halos_out[i] = self.halos[i].shifted_copy(float(xs), float(ys))
 
         new_realization = Realization.from_halos(halos_out, self.lens_cosmo, self.kwargs_halo_model,
                                                  self.apply_mass_sheet_correction,
-- 
2.43.0


From e8c46712b48755374ef4349522c3607c3b33f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 03/58] fix: MassiveGalaxy keeps its _alphaRs method callable

---
 pyHalo/Halos/HaloModels/sis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/sis.py b/pyHalo/Halos/HaloModels/sis.py
index 5e3e364..6fafe81 100644
--- a/pyHalo/Halos/HaloModels/sis.py
+++ b/pyHalo/Halos/HaloModels/sis.py
@@ -197,12 +197,12 @@ class MassiveGalaxy(Halo):
             gamma_outer = self._args['gamma_outer']
             sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
             sigma_crit_arcsec = sigma_crit_mpc * (0.001 * kpc_per_arcsec) ** 2
-            self._alphaRs = m_nfw / self._prof.mass_3d_lens(r_match_arcsec,
-                                                            rs_arcsec,
-                                                            1.0,
-                                                            gamma_inner,
-                                                            gamma_outer) / sigma_crit_arcsec
-        return self._alphaRs
+            self._rho0_norm = m_nfw / self._prof.mass_3d_lens(r_match_arcsec,
+                                                              rs_arcsec,
+                                                              1.0,
+                                                              gamma_inner,
+                                                              gamma_outer) / sigma_crit_arcsec
+        return self._rho0_norm
 
 
 
-- 
2.43.0


From d59aed888067c5130a7b1eae93c751b4fc72a030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 04/58] fix: realizations derived from a shifted realization
 inherit its shift status

---
 pyHalo/realization_extensions.py |  6 ++++--
 pyHalo/single_realization.py     | 20 +++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 9cccdba..22c1458 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -66,7 +66,8 @@ class RealizationExtensions(object):
                                              self._realization.rendering_classes,
                                              self._realization._rendering_center_x,
                                              self._realization._rendering_center_y,
-                                             self._realization.geometry)
+                                             self._realization.geometry,
+                                             self._realization._has_been_shifted)
         return realization
 
     def add_black_holes(self, log10_mass_ratio,
@@ -164,7 +165,8 @@ class RealizationExtensions(object):
                                    self._realization.rendering_classes,
                                    self._realization._rendering_center_x,
                                    self._realization._rendering_center_y,
-                                   self._realization.geometry)
+                                   self._realization.geometry,
+                                   self._realization._has_been_shifted)
         return mbh_realization
 
     def add_globular_clusters(self, log10_mgc_mean, log10_mgc_sigma, rendering_radius_arcsec,
diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 41e2380..aa7ce5e 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -53,7 +53,8 @@ def realization_at_z(realization,
                                   kwargs_halo_model,
                                   mass_sheet_correction,
                                   realization.rendering_classes,
-                                  centerx, centery, geometry), indexes
+                                  centerx, centery, geometry,
+                                  realization._has_been_shifted), indexes
 
 class Realization(object):
 
@@ -173,7 +174,7 @@ class Realization(object):
 
     @classmethod
     def from_halos(cls, halos, lens_cosmo, kwargs_halo_model, msheet_correction, rendering_classes,
-                   rendering_center_x=None, rendering_center_y=None, geometry=None):
+                   rendering_center_x=None, rendering_center_y=None, geometry=None, has_been_shifted=False):
 
         """
 
@@ -188,6 +189,8 @@ class Realization(object):
         :param rendering_center_y: same as rendering_center_x, but for the y angular coordinate
         :param geometry: (optional, only relevant is subtract_exact_mass_sheets=True is specified in kwargs_realization)
         an instance of Geometry (pyHalo.Cosmology.geometry) that defines the rendering volume
+        :param has_been_shifted: bool; whether the halos have already been aligned with the source
+        (see shift_background_to_source)
         :return: an instance of Realization created directly from the halo class instances
         """
 
@@ -198,6 +201,7 @@ class Realization(object):
                                   rendering_center_x=rendering_center_x,
                                   rendering_center_y=rendering_center_y,
                                   geometry=geometry)
+        realization._has_been_shifted = has_been_shifted
         return realization
 
     @property
@@ -229,7 +233,8 @@ class Realization(object):
         halos = [self.halos[i] for i in np.where(keep)[0]]
         return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, self.rendering_classes,
-                                      self._rendering_center_x, self._rendering_center_y, self.geometry)
+                                      self._rendering_center_x, self._rendering_center_y, self.geometry,
+                                      self._has_been_shifted)
 
     def filter(self, aperture_radius,
                log10_mass_allowed_global,
@@ -317,7 +322,8 @@ class Realization(object):
 
         return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, self.rendering_classes,
-                                      self._rendering_center_x, self._rendering_center_y, self.geometry)
+                                      self._rendering_center_x, self._rendering_center_y, self.geometry,
+                                      self._has_been_shifted)
 
     def set_rendering_classes(self, rendering_classes):
 
@@ -379,7 +385,7 @@ class Realization(object):
         centerx, centery = self.rendering_center
         return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, rendering_classes,
-                                      centerx, centery, self.geometry)
+                                      centerx, centery, self.geometry, self._has_been_shifted)
 
     def shift_background_to_source(self, ray_interp_x, ray_interp_y, min_shift_redshift=0):
         """
@@ -520,10 +526,10 @@ class Realization(object):
         centerx, centery = self.rendering_center
         realization_1 = Realization.from_halos(halos_1, self.lens_cosmo,
                                                self.kwargs_halo_model, self.apply_mass_sheet_correction, self.rendering_classes,
-                                               centerx, centery, self.geometry)
+                                               centerx, centery, self.geometry, self._has_been_shifted)
         realization_2 = Realization.from_halos(halos_2, self.lens_cosmo,
                                                self.kwargs_halo_model, self.apply_mass_sheet_correction, self.rendering_classes,
-                                               centerx, centery, self.geometry)
+                                               centerx, centery, self.geometry, self._has_been_shifted)
 
         return realization_1, realization_2
 
-- 
2.43.0


From 74a91a6b7fd837e78298570fec1db4112c63f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 05/58] fix: preset models and model constructors complete
 copies of their keyword dictionaries

---
 pyHalo/Halos/concentration.py            |  2 ++
 pyHalo/Halos/lens_cosmo.py               |  1 +
 pyHalo/PresetModels/cdm.py               | 13 +++++++++++++
 pyHalo/PresetModels/wdm.py               | 17 +++++++++++++++++
 pyHalo/Rendering/rendering_class_base.py |  1 +
 5 files changed, 34 insertions(+)

diff --git a/pyHalo/Halos/concentration.py b/pyHalo/Halos/concentration.py
index 8147402..144dbd1 100644
--- a/pyHalo/Halos/concentration.py
+++ b/pyHalo/Halos/concentration.py
@@ -363,6 +363,7 @@ class ConcentrationWDMPolynomial(_ConcentrationTurnover):
         :param scatter_dex: scatter in concentration in dex
         :param kwargs_cdm: keyword arguments for the CDM concentration class
         """
+        kwargs_cdm = dict(kwargs_cdm)
         if 'scatter' not in kwargs_cdm.keys():
             kwargs_cdm['scatter'] = scatter
         if 'scatter_dex' not in kwargs_cdm.keys():
@@ -407,6 +408,7 @@ class ConcentrationWDMHyperbolic(_ConcentrationTurnover):
         :param concentration_cdm_class:
         :param kwargs_cdm:
         """
+        kwargs_cdm = dict(kwargs_cdm)
         if 'scatter' not in kwargs_cdm.keys():
             kwargs_cdm['scatter'] = scatter
         if 'scatter_dex' not in kwargs_cdm.keys():
diff --git a/pyHalo/Halos/lens_cosmo.py b/pyHalo/Halos/lens_cosmo.py
index 794680e..827e5e7 100644
--- a/pyHalo/Halos/lens_cosmo.py
+++ b/pyHalo/Halos/lens_cosmo.py
@@ -88,6 +88,7 @@ class LensCosmo(object):
         :return:
         """
         self._infall_pdf_set = True
+        kwargs_infall_model = dict(kwargs_infall_model)
         if infall_redshift_model in ['DIRECT_INFALL', 'HYBRID_INFALL']:
             if 'm_host' in list(kwargs_infall_model.keys()):
                 kwargs_infall_model['log_m_host'] = numpy.log10(kwargs_infall_model['m_host'])
diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index 27d4927..0822572 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -77,6 +77,12 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     :param lens_plane_spacing: sets the spacing between LOS lens planes, if None reverts to default value of 0.02
     :return: a realization of dark matter halos
     """
+    # THE KEYWORD ARGUMENTS ARE COMPLETED BELOW, SO WE WORK ON COPIES
+    kwargs_concentration_model_subhalos = dict(kwargs_concentration_model_subhalos)
+    kwargs_concentration_model_fieldhalos = dict(kwargs_concentration_model_fieldhalos)
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos)
+    kwargs_infall_model = dict(kwargs_infall_model)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
@@ -227,6 +233,9 @@ def CDMCorrelatedStructure(z_lens, z_source, log_mlow=6., log_mhigh=10.,
     :param mass_threshold_sis: the mass threshold above which NFW profiles become SIS
     :return:
     """
+    # THE KEYWORD ARGUMENTS ARE COMPLETED BELOW, SO WE WORK ON COPIES
+    kwargs_concentration_model = dict(kwargs_concentration_model)
+    kwargs_truncation_model = dict(kwargs_truncation_model)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
@@ -352,6 +361,10 @@ def CDMBinned(z_lens, z_source,
     :param lens_plane_spacing: sets the spacing between LOS lens planes, if None reverts to default value of 0.02
     :return: a realization of dark matter halos
     """
+    # THE KEYWORD ARGUMENTS ARE COMPLETED BELOW, SO WE WORK ON COPIES
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos)
+    kwargs_infall_model = dict(kwargs_infall_model)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index ac55575..e61a55c 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -85,6 +85,15 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     :param mass_threshold_sis: add SIS halos above this scale
     :param lens_plane_spacing: sets the spacing between LOS lens planes, if None reverts to default value of 0.02
     """
+    # THE KEYWORD ARGUMENTS ARE COMPLETED BELOW, SO WE WORK ON COPIES
+    kwargs_mass_function_subhalos = dict(kwargs_mass_function_subhalos)
+    kwargs_mass_function_fieldhalos = dict(kwargs_mass_function_fieldhalos)
+    kwargs_concentration_model_subhalos = dict(kwargs_concentration_model_subhalos)
+    kwargs_concentration_model_fieldhalos = dict(kwargs_concentration_model_fieldhalos)
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos)
+    kwargs_infall_model = dict(kwargs_infall_model)
+    kwargs_density_profile = dict(kwargs_density_profile)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
@@ -264,6 +273,9 @@ def WDM_mixed(z_lens, z_source, log_mc, mixed_DM_frac, sigma_sub=0.025, log_mlow
     :param include_prompt_cusps: bool; include prompt cusps inside halos
     :return:
     """
+    # THE KEYWORD ARGUMENTS ARE COMPLETED BELOW, SO WE WORK ON COPIES
+    kwargs_mass_function_subhalos = dict(kwargs_mass_function_subhalos)
+    kwargs_mass_function_fieldhalos = dict(kwargs_mass_function_fieldhalos)
     params = ['a_wdm', 'b_wdm', 'c_wdm']
     values_keeley_2023 = [0.5, 0.8, -3.0]
     for i, param in enumerate(params):
@@ -359,6 +371,11 @@ def WDMGeneral(z_lens, z_source, log_mc, dlogT_dlogk, sigma_sub=0.025, log_mlow=
     :param mass_threshold_sis: the mass threshold above which NFW profiles become SIS
     :return:
     """
+    # THE KEYWORD ARGUMENTS ARE COMPLETED BELOW, SO WE WORK ON COPIES
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos)
+    kwargs_infall_model = dict(kwargs_infall_model)
+    kwargs_density_profile = dict(kwargs_density_profile)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
diff --git a/pyHalo/Rendering/rendering_class_base.py b/pyHalo/Rendering/rendering_class_base.py
index 5a283d9..6ed0010 100644
--- a/pyHalo/Rendering/rendering_class_base.py
+++ b/pyHalo/Rendering/rendering_class_base.py
@@ -19,6 +19,7 @@ class RenderingClassBase(object):
         self._mass_function_model = mass_function_model
         self._spatial_distribution_model = spatial_distribution_model
         if 'draw_poisson' not in kwargs_mass_function.keys():
+            kwargs_mass_function = dict(kwargs_mass_function)
             kwargs_mass_function['draw_poisson'] = True
         self._kwargs_mass_function = kwargs_mass_function
         self._geometry = geometry
-- 
2.43.0


From c60ccc884943db6797c51c4a0b1c25c5791fe4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 06/58] fix: rendered subhalos and field halos get their own
 mass definition

---
 pyHalo/pyhalo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/pyhalo.py b/pyHalo/pyhalo.py
index c516ed1..611f2f7 100644
--- a/pyHalo/pyhalo.py
+++ b/pyHalo/pyhalo.py
@@ -125,9 +125,9 @@ class pyHalo(object):
         mdefs = []
         for i in range(0, len(masses)):
             if subhalo_flag[i]:
-                mdefs += [mdef_field_halos]
-            else:
                 mdefs += [mdef_subhalos]
+            else:
+                mdefs += [mdef_field_halos]
         realization = Realization(masses, x_arcsec, y_arcsec, r3d, mdefs, redshifts, subhalo_flag, self.lens_cosmo,
                                   kwargs_halo_model=kwargs_halo_model,
                                   mass_sheet_correction=True,
-- 
2.43.0


From b6bfb6b579f2c4bf5066f5198c0f3de342dccf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 07/58] fix: each halo owns its profile keyword arguments;
 core-collapsed copies keep the infall redshift

---
 pyHalo/Halos/HaloModels/generalized_nfw.py |  9 ++++-----
 pyHalo/realization_extensions.py           | 10 +++++++---
 pyHalo/single_realization.py               |  3 ++-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/generalized_nfw.py b/pyHalo/Halos/HaloModels/generalized_nfw.py
index 81020d4..36ef01e 100644
--- a/pyHalo/Halos/HaloModels/generalized_nfw.py
+++ b/pyHalo/Halos/HaloModels/generalized_nfw.py
@@ -99,8 +99,7 @@ class GeneralNFWSubhalo(Halo):
         if not hasattr(self, '_rho0_norm'):
             (concentration, gamma_inner, gamma_outer) = self.profile_args
             rhos, rs_nfw, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z_eval)
-            if 'r_transition' not in self._args.keys():
-                self._args['r_transition'] = rs_nfw
+            r_transition = self._args.get('r_transition', rs_nfw)
             kpc_per_arcsec = self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)
             if 'x_match' in self._args.keys():
                 if self._args['x_match'] == 'c':
@@ -110,13 +109,13 @@ class GeneralNFWSubhalo(Halo):
             else:
                 # r_vmax = 2.16 * rs
                 x_match = 2.16
-            rs_arcsec = self._args['r_transition'] / kpc_per_arcsec
-            r_match_arcsec = x_match * self._args['r_transition'] / kpc_per_arcsec
+            rs_arcsec = r_transition / kpc_per_arcsec
+            r_match_arcsec = x_match * r_transition / kpc_per_arcsec
             if 'mass_conservation' in self._args.keys():
                 m_match = self._args['mass_conservation']
             else:
                 fx = np.log(1 + x_match) - x_match / (1 + x_match)
-                m_match = 4 * np.pi * self._args['r_transition'] ** 3 * rhos * fx
+                m_match = 4 * np.pi * r_transition ** 3 * rhos * fx
             sigma_crit_arcsec = self._lens_cosmo.sigma_crit_arcsecond_interp(self.z)
             self._rho0_norm = m_match / self._prof.mass_3d(r_match_arcsec, rs_arcsec, sigma_crit_arcsec, gamma_inner, gamma_outer)
         return self._rho0_norm
diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 22c1458..b8db0b8 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -888,7 +888,8 @@ class RealizationExtensions(object):
                 else:
                     truncation_class = halo._truncation_class
                     concentration_class = halo._concentration_class
-                    halo.update_args(kwargs_halo)
+                    args_halo = dict(halo.args_profile)
+                    args_halo.update(kwargs_halo)
                     if is_subhalo:
                         new_halo = subhalo_model(halo.mass,
                                                halo.x,
@@ -897,7 +898,7 @@ class RealizationExtensions(object):
                                                halo.z,
                                                is_subhalo,
                                                halo.lens_cosmo,
-                                               halo.args_profile,
+                                               args_halo,
                                                truncation_class,
                                                concentration_class,
                                                halo.unique_tag)
@@ -909,10 +910,13 @@ class RealizationExtensions(object):
                                                  halo.z,
                                                  is_subhalo,
                                                  halo.lens_cosmo,
-                                                 halo.args_profile,
+                                                 args_halo,
                                                  truncation_class,
                                                  concentration_class,
                                                  halo.unique_tag)
+                    if is_subhalo:
+                        # the new object describes the same subhalo: keep its infall redshift
+                        new_halo.set_infall_redshift(halo.z_infall)
                 new_halos.append(new_halo)
             else:
                 new_halos.append(halo)
diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index aa7ce5e..1aaa7ce 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -726,7 +726,8 @@ class Realization(object):
             else:
                 kwargs_halo['concentration_class'] = kwargs_halo_model['concentration_model_field_halos']
 
-        kwargs_halo['args'] = kwargs_halo_model['kwargs_density_profile']
+        # each halo owns its keyword arguments, so that updating one halo leaves the others unchanged
+        kwargs_halo['args'] = dict(kwargs_halo_model['kwargs_density_profile'])
 
         if mdef == 'NFW':
             if is_subhalo:
-- 
2.43.0


From 644ba43a984641a210c48d4c3aa2c1df9c3a5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 08/58] fix: TNFWSubhalo.bound_mass does not depend on whether
 the lensing keywords were exported

---
 pyHalo/Halos/HaloModels/TNFW.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 3bdfca7..35af5fe 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -308,11 +308,8 @@ class TNFWSubhalo(TNFWFieldHalo):
         Computes the mass inside the infall virial radius (with truncation effects included)
         :return: the mass inside r = c * r_s
         """
-        if hasattr(self, '_kwargs_lenstronomy'):
-            tau = self._kwargs_lenstronomy[0]['r_trunc'] / self._kwargs_lenstronomy[0]['Rs']
-        else:
-            params_physical = self.params_physical
-            tau = params_physical['r_trunc_kpc'] / params_physical['rs']
+        params_physical = self.params_physical
+        tau = params_physical['r_trunc_kpc'] / params_physical['rs']
         f = tnfw_mass_fraction(tau, self.c)
         return f * self.mass * self._rescale_norm
 
-- 
2.43.0


From c4611dfa63a8af1f6a22815908343df759e520fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 09/58] fix: rescale_normalization invalidates every cached
 quantity that includes the normalization

---
 pyHalo/Halos/HaloModels/TNFWFromParams.py | 18 ++++++++++---
 pyHalo/Halos/halo_base.py                 | 32 +++++++----------------
 2 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/TNFWFromParams.py b/pyHalo/Halos/HaloModels/TNFWFromParams.py
index b56cde4..715ab3f 100644
--- a/pyHalo/Halos/HaloModels/TNFWFromParams.py
+++ b/pyHalo/Halos/HaloModels/TNFWFromParams.py
@@ -24,8 +24,8 @@ class TNFWFromParams(TNFWSubhalo):
         x = x_kpc / self._kpc_per_arcsec_at_z
         y = y_kpc / self._kpc_per_arcsec_at_z
         keys_physical = (self.KEY_RV,self.KEY_RS,self.KEY_RHO_S,self.KEY_RV,self.KEY_RT)
-        self._params_physical = {key:args[key] for key in keys_physical}
-        self._c = self._params_physical[self.KEY_RV] / self._params_physical[self.KEY_RS]
+        self._params_input = {key:args[key] for key in keys_physical}
+        self._c = self._params_input[self.KEY_RV] / self._params_input[self.KEY_RS]
         self.id = args.get(self.KEY_ID)
         self._z_infall = args.get(self.KEY_Z_INFALL)
         super(TNFWFromParams, self).__init__(mass,x,y,r3d,z,sub_flag,lens_cosmo_instance,args,None,None,unique_tag)
@@ -37,7 +37,7 @@ class TNFWFromParams(TNFWSubhalo):
         :return: the density profile in units M_sun / kpc^3
         """
 
-        _params = self._params_physical if params_physical is None else params_physical
+        _params = self.params_physical if params_physical is None else params_physical
 
         r_t = _params[self.KEY_RT]
         r_s = _params[self.KEY_RS]
@@ -53,6 +53,16 @@ class TNFWFromParams(TNFWSubhalo):
         return density_nfw * (tau**2 / (tau**2 + x**2))**n
 
 
+    @property
+    def params_physical(self):
+        """
+        See documentation in base class (Halos/halo_base.py)
+        """
+        if not hasattr(self, '_params_physical'):
+            self._params_physical = dict(self._params_input)
+            self._params_physical[self.KEY_RHO_S] *= self._rescale_norm
+        return self._params_physical
+
     @property
     def profile_args(self):
         """
@@ -75,7 +85,7 @@ class TNFWFromParams(TNFWSubhalo):
 
             r_t = self.params_physical[self.KEY_RT]
             r_s = self.params_physical[self.KEY_RS]
-            rho_s = self.params_physical[self.KEY_RHO_S]
+            rho_s = self._params_input[self.KEY_RHO_S]
 
             Rs_angle, theta_Rs = self.lens_cosmo.nfw_physical2angle_fromNFWparams(rho_s *1 / KPC_TO_MPC**3,r_s * KPC_TO_MPC,self.z)
 
diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index b9a65fb..d30487d 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -62,6 +62,9 @@ class Halo(ABC):
     _position_dependent_cache = ('_kwargs_lenstronomy', '_lenstronomy_args', '_lenstronomy_args_split',
                                  '_lenstronomy_params')
 
+    # attributes in which halo classes cache quantities that include the normalization of the profile
+    _normalization_dependent_cache = ('_params_physical', '_nfw_params', '_vmax') + _position_dependent_cache
+
     def shifted_copy(self, dx, dy):
         """
         Returns a copy of this halo displaced by (dx, dy); the halo itself does not move
@@ -88,28 +91,13 @@ class Halo(ABC):
         :param log:
         :return:
         """
-        if force:
-            if log:
-                self._rescaled_once = True
-            self._rescale_norm *= factor
-            if hasattr(self, '_params_physical'):
-                delattr(self, '_params_physical')
-            if hasattr(self, '_kwargs_lenstronomy'):
-                delattr(self, '_kwargs_lenstronomy')
-            if hasattr(self, '_nfw_params'):
-                delattr(self, '_nfw_params')
-        elif self._rescaled_once:
-            pass
-        else:
-            if log:
-                self._rescaled_once = True
-            self._rescale_norm *= factor
-            if hasattr(self, '_params_physical'):
-                delattr(self, '_params_physical')
-            if hasattr(self, '_kwargs_lenstronomy'):
-                delattr(self, '_kwargs_lenstronomy')
-            if hasattr(self, '_nfw_params'):
-                delattr(self, '_nfw_params')
+        if self._rescaled_once and not force:
+            return
+        if log:
+            self._rescaled_once = True
+        self._rescale_norm *= factor
+        for name in self._normalization_dependent_cache:
+            self.__dict__.pop(name, None)
 
     @property
     @abstractmethod
-- 
2.43.0


From 1a51291d934a133ff08f73bcf957885a62202e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 10/58] fix: TNFW mass_3d uses the truncated normalization
 whichever property is read first

---
 pyHalo/Halos/HaloModels/TNFW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 35af5fe..afe8fd2 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -140,9 +140,10 @@ class TNFWFieldHalo(Halo):
         """
         if rmax == 'r200':
             rmax = self.nfw_params[1] * self.c
+        # evaluating the truncation radius can rescale the normalization, so this has to happen first
+        r_trunc = self.profile_args[1]
         rs = self.nfw_params[1]
         rho0 = self.nfw_params[0] * self._rescale_norm
-        r_trunc = self.profile_args[1]
         return self.tnfw_lenstronomy.mass_3d(rmax, rs, rho0, r_trunc/rs)
 
     def density_profile_3d_lenstronomy(self, r, profile_args=None):
-- 
2.43.0


From 3f716673a9183f670d1176f80f6466ea8c24ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 11/58] fix: subhalo truncation radii follow from the bound
 mass for every TruncationGalacticus model

---
 pyHalo/Halos/HaloModels/TNFW.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index afe8fd2..bbc0a91 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -323,7 +323,8 @@ class TNFWSubhalo(TNFWFieldHalo):
         if self._truncation_class.name in ['TruncationGalacticus',
                                             'TruncationGalacticusZinfall',
                                            'TruncationGalacticusKeeley24',
-                                           'TruncationGalacticusApproxCDM']:
+                                           'TruncationGalacticusApproxCDM',
+                                           'TruncationGalacticusMilkyWay']:
             pass
         else:
             raise Exception('this method can only be called when using one of the TruncationGalacticus class')
@@ -337,7 +338,9 @@ class TNFWSubhalo(TNFWFieldHalo):
         See documentation in base class (Halos/halo_base.py)
         """
         if not hasattr(self, '_profile_args'):
-            if self._truncation_class.name == 'TruncationGalacticus':
+            if hasattr(self._truncation_class, 'truncation_radius_from_bound_mass'):
+                # the truncation radius corresponds to the bound mass of this halo
+                _ = self.c
                 mbound = self.bound_mass_galacticus_definition
                 truncation_radius_kpc = self._truncation_class.truncation_radius_from_bound_mass(self, mbound)
             else:
-- 
2.43.0


From b435b2b503a0e793ca0124eedf8b7e251e66b859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 12/58] fix: names and calls that raise on use (np.trapz,
 TNFWCHaloEvolving, Hybrid.profile_args)

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py | 3 ++-
 pyHalo/Halos/HaloModels/TNFW.py           | 2 +-
 pyHalo/single_realization.py              | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index 525fba5..6b05cf2 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -344,8 +344,9 @@ class Hybrid(Halo):
             self._c = self.tnfw_halo.c
         return self._c
 
+    @property
     def profile_args(self):
-        return [self.tnfw_halo.profile_args(), self.tnfwc_halo.profile_args()]
+        return [self.tnfw_halo.profile_args, self.tnfwc_halo.profile_args]
 
     @property
     def lenstronomy_params(self):
diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index bbc0a91..23f10ae 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -94,7 +94,7 @@ class TNFWFieldHalo(Halo):
         sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
         sigma_crit_kpc = sigma_crit_mpc * 1e-6
         sigma_crit_arcsec = sigma_crit_kpc * kpc_per_arcsec ** 2
-        return np.trapz(kappa * 2 * np.pi * x, x) * sigma_crit_arcsec
+        return np.trapezoid(kappa * 2 * np.pi * x, x) * sigma_crit_arcsec
 
     def deflection_angle(self, r_arcsec):
         """
diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 1aaa7ce..a6f6fcb 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -8,6 +8,7 @@ from pyHalo.Halos.HaloModels.powerlaw import PowerLawFieldHalo, PowerLawSubhalo
 from pyHalo.Halos.HaloModels.PsuedoJaffe import PJaffeSubhalo
 from pyHalo.Halos.HaloModels.blackhole import BlackHole
 from pyHalo.Halos.HaloModels.ULDM import ULDMFieldHalo, ULDMSubhalo
+from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloEvolving
 from pyHalo.Halos.HaloModels.gaussianhalo import GaussianHalo
 import numpy as np
 from copy import deepcopy
-- 
2.43.0


From 13f1a8964e01b9ab7a19b3cd82f346bd30c75956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 13/58] fix: PJaffe and generalized NFW halos draw their
 concentration once; PJaffe central density is finite

---
 pyHalo/Halos/HaloModels/PsuedoJaffe.py     | 6 +++---
 pyHalo/Halos/HaloModels/generalized_nfw.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/PsuedoJaffe.py b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
index ed33abc..eff409f 100644
--- a/pyHalo/Halos/HaloModels/PsuedoJaffe.py
+++ b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
@@ -35,7 +35,7 @@ class PJaffeSubhalo(Halo):
             concentration = self.profile_args
             rhos, rs, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z_eval)
             ra_kpc = 0.01 * rs
-            rho = self._rho(self.mass, ra_kpc, ra_kpc, self.c * rs)
+            rho = self._rho(self.mass, rs, ra_kpc, self.c * rs)
             self._params_physical = {'rhos': rhos, 'rs': rs, 'r200': r200, 'rho': rho}
 
         return self._params_physical
@@ -111,7 +111,7 @@ class PJaffeSubhalo(Halo):
         """
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z_eval)
+            concentration = self.c
             self._profile_args = (concentration)
 
         return self._profile_args
@@ -125,7 +125,7 @@ class PJaffeFieldhalo(PJaffeSubhalo):
 
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z)
+            concentration = self.c
             self._profile_args = (concentration)
 
         return self._profile_args
diff --git a/pyHalo/Halos/HaloModels/generalized_nfw.py b/pyHalo/Halos/HaloModels/generalized_nfw.py
index 36ef01e..e3a5a90 100644
--- a/pyHalo/Halos/HaloModels/generalized_nfw.py
+++ b/pyHalo/Halos/HaloModels/generalized_nfw.py
@@ -84,7 +84,7 @@ class GeneralNFWSubhalo(Halo):
         """
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z_eval)
+            concentration = self.c
             gamma_inner = self._args['gamma_inner']
             gamma_outer = self._args['gamma_outer']
             self._profile_args = (concentration, gamma_inner, gamma_outer)
-- 
2.43.0


From bb31be8bc916771612db84225e21e07a1612f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 14/58] fix: SIS and MassiveGalaxy keep the infall redshift of
 their halo

---
 pyHalo/Halos/HaloModels/sis.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyHalo/Halos/HaloModels/sis.py b/pyHalo/Halos/HaloModels/sis.py
index 6fafe81..e5c4e17 100644
--- a/pyHalo/Halos/HaloModels/sis.py
+++ b/pyHalo/Halos/HaloModels/sis.py
@@ -41,6 +41,13 @@ class SIS(Halo):
             self._profile_args = (velocity_dispersion)
         return self._profile_args
 
+    @property
+    def z_infall(self):
+        """
+        The infall redshift of the halo that hosts this object
+        """
+        return self._nfw_halo.z_infall
+
     @property
     def bound_mass(self):
         if self.is_subhalo:
@@ -112,6 +119,13 @@ class MassiveGalaxy(Halo):
                                         kwargs_lenstronomy['gamma_outer'])
 
 
+    @property
+    def z_infall(self):
+        """
+        The infall redshift of the halo that hosts this object
+        """
+        return self._nfw_halo.z_infall
+
     @property
     def bound_mass(self):
         """
-- 
2.43.0


From 1737fd3902ea4d5f77dcd0fc8d83203bfcfff2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 15/58] fix: CoreCollapsedHaloBH.lenstronomy_params_split does
 not replace the exported keywords

---
 pyHalo/Halos/HaloModels/core_collapsed_halo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/core_collapsed_halo.py b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
index 564cb73..026f187 100644
--- a/pyHalo/Halos/HaloModels/core_collapsed_halo.py
+++ b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
@@ -323,9 +323,9 @@ class CoreCollapsedHaloBH(CoreCollapsedHalo):
                                'Rs': Rs_angle,
                         'alpha_Rs': alpha_Rs_envelope,
                         'r_trunc': r_trunc_arcsec}
-            kwargs_center = {'theta_E': theta_E_inner, 'center_x': x, 'cetner_y': y}
-            self._lenstronomy_args = [kwargs_center, kwargs_envelope]
-        return self._lenstronomy_args, None
+            kwargs_center = {'theta_E': theta_E_inner, 'center_x': x, 'center_y': y}
+            self._lenstronomy_args_split = [kwargs_center, kwargs_envelope]
+        return self._lenstronomy_args_split, None
 
     @property
     def lenstronomy_params(self):
-- 
2.43.0


From f87a936ca4483d0c78bc51e946136f9154fecc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 16/58] fix: selections with probability zero select nothing
 for every random draw

---
 pyHalo/realization_extensions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index b8db0b8..5054e67 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -93,7 +93,7 @@ class RealizationExtensions(object):
         black_hole_list = []
         for halo in self._realization.halos:
             u = np.random.rand()
-            if u > f:
+            if u >= f:
                 # no BH in this halo
                 continue
             kpc_per_arcsec = self._realization.lens_cosmo.cosmo.kpc_proper_per_asec(halo.z)
@@ -514,7 +514,7 @@ class RealizationExtensions(object):
                         halo.halo_effective_age = halo_effective_age
                         halo.t_over_tc = t_over_tc
                         return halo
-                    elif collapse_probability < np.random.rand():
+                    elif collapse_probability <= np.random.rand():
                         halo.halo_effective_age = halo_effective_age
                         halo.t_over_tc = t_over_tc
                         return halo
@@ -528,7 +528,7 @@ class RealizationExtensions(object):
                         halo.halo_effective_age = halo_effective_age
                         halo.t_over_tc = t_over_tc
                         return halo
-                    elif collapse_probability < np.random.rand():
+                    elif collapse_probability <= np.random.rand():
                         halo.halo_effective_age = halo_effective_age
                         halo.t_over_tc = t_over_tc
                         return halo
@@ -609,7 +609,7 @@ class RealizationExtensions(object):
                     halo.halo_effective_age = halo_effective_age
                     halo.t_over_tc = t_over_tc
                     return halo
-                elif collapse_probability < np.random.rand():
+                elif collapse_probability <= np.random.rand():
                     halo.halo_effective_age = halo_effective_age
                     halo.t_over_tc = t_over_tc
                     return halo
@@ -803,7 +803,7 @@ class RealizationExtensions(object):
                             prob = probabilities_subhalos[i](halo)
                         else:
                             prob = probabilities_subhalos[i]
-                        if u <= prob:
+                        if u < prob:
                             indexes.append(i_halo)
                         break
             else:
@@ -813,7 +813,7 @@ class RealizationExtensions(object):
                             prob = probabilities_field_halos[i](halo)
                         else:
                             prob = probabilities_field_halos[i]
-                        if u <= prob:
+                        if u < prob:
                             indexes.append(i_halo)
                         break
         return indexes
-- 
2.43.0


From 08ccad4cefc2a0845729b37f5f6e7eaba1745591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 17/58] fix: SIS infall redshift can be set explicitly

---
 pyHalo/Halos/HaloModels/sis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/sis.py b/pyHalo/Halos/HaloModels/sis.py
index e5c4e17..cf62cca 100644
--- a/pyHalo/Halos/HaloModels/sis.py
+++ b/pyHalo/Halos/HaloModels/sis.py
@@ -46,7 +46,9 @@ class SIS(Halo):
         """
         The infall redshift of the halo that hosts this object
         """
-        return self._nfw_halo.z_infall
+        if not hasattr(self, '_z_infall'):
+            self._z_infall = self._nfw_halo.z_infall
+        return self._z_infall
 
     @property
     def bound_mass(self):
@@ -124,7 +126,9 @@ class MassiveGalaxy(Halo):
         """
         The infall redshift of the halo that hosts this object
         """
-        return self._nfw_halo.z_infall
+        if not hasattr(self, '_z_infall'):
+            self._z_infall = self._nfw_halo.z_infall
+        return self._z_infall
 
     @property
     def bound_mass(self):
-- 
2.43.0


From ab9c530917392db7ce1b7534c2b51e0c234e557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 18/58] fix: ULDM fluctuations stay with their image when
 another aperture has none

---
 pyHalo/realization_extensions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 5054e67..6c75924 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1204,7 +1204,6 @@ def _get_number_flucs(realization, de_Broglie_wavelength, fluctuation_size_scale
         area_aperture = np.pi*r_kpc**2 # aperture area
         n_flucs_expected = n_fluc_scale*area_aperture/fluc_area #number of expected fluctuations per aperture
         n_flucs = np.random.poisson(n_flucs_expected,n_images) #draw number of fluctuations from poisson distribution for each image
-        n_flucs = n_flucs[n_flucs!=0] #get rid of aperture if zero fluctuations within it
 
     return n_flucs
 
-- 
2.43.0


From 987b2636c3182d5781243a12ac2e18b4fc860546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 19/58] fix: add_cored_halos replaces only the halos in
 halo_index_list

---
 pyHalo/realization_extensions.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 6c75924..0c48845 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -275,20 +275,20 @@ class RealizationExtensions(object):
         truncation_class = None
         args = {'beta': beta}
         for i, halo in enumerate(self._realization.halos):
+            if i not in halo_index_list:
+                new_halo_list.append(halo)
+                continue
             concentration_class = ConcentrationConstant(self._realization.lens_cosmo.cosmo,
                                                         halo.c)
             if core_density_profile == 'CNFW':
-                if i in halo_index_list:
-                    r3d = None
-                    new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, r3d, halo.z,
-                                           halo.is_subhalo, self._realization.lens_cosmo, args,
-                                           truncation_class, concentration_class, halo.unique_tag)
-                    if halo.is_subhalo:
-                        new_halo.set_bound_mass(halo.bound_mass)
-                        new_halo.set_infall_redshift(halo.z_infall)
-                    new_halo_list.append(new_halo)
-                else:
-                    new_halo_list.append(halo)
+                r3d = None
+                new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, r3d, halo.z,
+                                       halo.is_subhalo, self._realization.lens_cosmo, args,
+                                       truncation_class, concentration_class, halo.unique_tag)
+                if halo.is_subhalo:
+                    new_halo.set_bound_mass(halo.bound_mass)
+                    new_halo.set_infall_redshift(halo.z_infall)
+                new_halo_list.append(new_halo)
             else:
                 new_halo = self.toSIDM_single_halo(halo,
                                                    None,
-- 
2.43.0


From 14a8bb548140f38ecebb95288b1041ea69201c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 20/58] fix: black holes in sub-resolution halos obey the black
 hole mass limits

---
 pyHalo/realization_extensions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 0c48845..eecbd8f 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -143,9 +143,10 @@ class RealizationExtensions(object):
             kpc_per_arcsec = self._realization.lens_cosmo.cosmo.kpc_proper_per_asec(zi)
             x = x_kpc / kpc_per_arcsec
             y = y_kpc / kpc_per_arcsec
-            for m_bh, x_bh, y_bh in zip(mass_sub_resolution, x, y):
+            for m_halo, x_bh, y_bh in zip(mass_sub_resolution, x, y):
+                m_bh = min(10 ** log10_mass_maximum, m_halo * 10 ** log10_mass_ratio)
                 if m_bh > 10 ** log10_min_mbh:
-                    mbh = BlackHole(m_bh * 10 ** log10_mass_ratio,
+                    mbh = BlackHole(m_bh,
                                     x_bh,
                                     y_bh,
                                     r3d=None,
-- 
2.43.0


From 3bc9dc5f7e48ca6e0d0456803de54ae56953d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 21/58] fix: correlated structure keeps the positions it
 rendered and rescales halos whatever the last plane draws

---
 pyHalo/Rendering/correlated_structure.py | 10 ++++++----
 pyHalo/realization_extensions.py         |  7 ++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 858adef..7c23a2b 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -58,15 +58,17 @@ class CorrelatedStructure(RenderingClassBase):
             delta_z.append(plane_redshifts[i + 1] - plane_redshifts[i])
         delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
         rescale_indexes = []
+        rescale_factor = 1.
         for z, dz in zip(plane_redshifts, delta_z):
             d = self._lens_cosmo.cosmo.D_C_transverse(z)
             x_angle = x_center_interp(d)
             y_angle = y_center_interp(d)
-            _m, _x, _y, halo_inds, rescale_factor = self.render_at_z(z, x_angle, y_angle,
+            _m, _x, _y, halo_inds, _rescale_factor = self.render_at_z(z, x_angle, y_angle,
                                                 rmax, arcsec_per_pixel)
+            if len(halo_inds) > 0:
+                rescale_factor = _rescale_factor
             # find all halos within rmax of coordinate
-            _x, _y = self._halo_x, self._halo_y
-            dr = np.hypot(_x - x_angle, _y - y_angle)
+            dr = np.hypot(self._halo_x - x_angle, self._halo_y - y_angle)
             indexes = list(np.where(np.logical_and(self._halo_redshifts == z, dr < rmax))[0])
             rescale_indexes += list(indexes)
             if len(_m) > 0:
@@ -104,7 +106,7 @@ class CorrelatedStructure(RenderingClassBase):
             y_arcsec = y_kpc / kpc_per_asec
             return m, x_arcsec, y_arcsec, halo_indexes, rescale_factor
         else:
-            return np.array([]), np.array([]), np.array([]), [], 1.
+            return np.array([]), np.array([]), np.array([]), halo_indexes, rescale_factor
 
     def render_masses_at_z(self, mass_in_area):
 
diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index eecbd8f..841c2f0 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1030,11 +1030,12 @@ class RealizationExtensions(object):
         correlated_structure = CorrelatedStructure(mass_function_model, kwargs_mass_function,
                  self._realization.geometry, self._realization.lens_cosmo, lens_plane_redshifts,
                                                    delta_z_list, self._realization)
-        rescale_indicies = []
+        rescale_factors = {}
         for image_index, (x_image_interp, y_image_interp) in enumerate(zip(x_image_interp_list, y_image_interp_list)):
             masses, x, y, r3d, redshifts, subhalo_flag, rescale_factor, _rescale_indicies = correlated_structure.render(
                 r_max, x_image_interp, y_image_interp, arcsec_per_pixel)
-            rescale_indicies += list(_rescale_indicies)
+            for halo_index in _rescale_indicies:
+                rescale_factors.setdefault(int(halo_index), rescale_factor)
             mdefs = [mass_definition] * len(masses)
             kwargs_halo_model = {'truncation_model': None, 'concentration_model': None, 'kwargs_density_profile': {}}
             if image_index==0:
@@ -1044,7 +1045,7 @@ class RealizationExtensions(object):
                 realization_pbh = realization_pbh.join(Realization(masses, x, y, r3d, mdefs, redshifts, subhalo_flag,
                                            self._realization.lens_cosmo, kwargs_halo_model=kwargs_halo_model))
         if rescale_normalizations:
-            for halo_index in np.unique(rescale_indicies):
+            for halo_index, rescale_factor in rescale_factors.items():
                 realization_copy.halos[halo_index].rescale_normalization(rescale_factor, log=False, force=True)
         new_realization = realization_copy.join(realization_pbh)
         return new_realization
-- 
2.43.0


From 7ae534ff5197527933b405eea5bce9241a544142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 22/58] fix: projected mass of correlated structure uses the
 number of pixels inside the aperture

---
 pyHalo/Rendering/correlated_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 7c23a2b..9ba9f25 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -174,7 +174,7 @@ class CorrelatedStructure(RenderingClassBase):
         pdf[inds_zero] = 0.
         inds_nan = np.where(np.isnan(pdf))
         pdf[inds_nan] = 0.
-        npixels = len(inds_zero)
+        npixels = len(rr) - len(inds_zero)
         effective_area = np.pi * rendering_radius ** 2 / npixels
         mass_in_area = self._mass_in_area(pdf, z, effective_area)
         return pdf.reshape(shape0), mass_in_area, halo_indexes
-- 
2.43.0


From c59cc238f56d1fc9345978bda29315af685e626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 23/58] fix: clustered primordial black holes use the requested
 mass function and each image's radius

---
 pyHalo/realization_extensions.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 841c2f0..86600ba 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1031,9 +1031,11 @@ class RealizationExtensions(object):
                  self._realization.geometry, self._realization.lens_cosmo, lens_plane_redshifts,
                                                    delta_z_list, self._realization)
         rescale_factors = {}
+        # a single radius applies to every image
+        r_max_list = [r_max] * len(x_image_interp_list) if np.ndim(r_max) == 0 else list(r_max)
         for image_index, (x_image_interp, y_image_interp) in enumerate(zip(x_image_interp_list, y_image_interp_list)):
             masses, x, y, r3d, redshifts, subhalo_flag, rescale_factor, _rescale_indicies = correlated_structure.render(
-                r_max, x_image_interp, y_image_interp, arcsec_per_pixel)
+                r_max_list[image_index], x_image_interp, y_image_interp, arcsec_per_pixel)
             for halo_index in _rescale_indicies:
                 rescale_factors.setdefault(int(halo_index), rescale_factor)
             mdefs = [mass_definition] * len(masses)
@@ -1158,13 +1160,17 @@ class RealizationExtensions(object):
             kwargs_pbh_mass_function['mass_function_type'] = mass_function_type
         else:
             raise ValueError('mass_function_type must be either DELTA or GAUSSIAN')
-        realization_with_clustering = self.add_correlated_structure(DeltaFunction,
+        if mass_function_type == 'DELTA':
+            mass_function_clustered = DeltaFunction
+        else:
+            mass_function_clustered = Gaussian
+        realization_with_clustering = self.add_correlated_structure(mass_function_clustered,
                                                                          kwargs_pbh_mass_function,
                                                                          mass_definition,
                                                                         x_image_interp_list,
                                                                         y_image_interp_list,
                                                                          arcsec_per_pixel,
-                                                                            r_max,
+                                                                            r_max_arcsec,
                                                                          rescale_normalizations)
         return realization_with_clustering.join(realization_smooth)
 
-- 
2.43.0


From 043137b1933d9ecf92869788c8307585c90727bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 24/58] fix: lensing_quantities returns keyword dictionaries
 the caller may edit

---
 pyHalo/single_realization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index a6f6fcb..c123803 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -487,7 +487,8 @@ class Realization(object):
             lens_model_name = halo.lenstronomy_ID
             kwargs_halo, interp_class = halo.lenstronomy_params
             lens_model_list += lens_model_name
-            kwargs_lens += kwargs_halo
+            # copies, because the halo keeps (and reuses) the dictionaries it computed
+            kwargs_lens += [dict(kwargs) for kwargs in kwargs_halo]
             redshift_array += [halo.z] * len(lens_model_name)
 
             if interp_class is not None:
-- 
2.43.0


From ffbb3c81222c28031aec35902a04847a39d7e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 25/58] fix: Galacticus files with a single tree can be read

---
 pyHalo/Halos/galacticus_util/galacticus_util.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_util.py b/pyHalo/Halos/galacticus_util/galacticus_util.py
index 3e2849c..8bfb2a7 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_util.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_util.py
@@ -138,13 +138,12 @@ class GalacticusUtil():
         node_tree_index = np.zeros(total_count,dtype=int)
         node_tree_order = np.zeros(total_count,dtype=int)
 
-        for n in range(1,len(tree_start)):
-            start,stop = tree_start[n-1],tree_start[n]
-            node_tree_order[start:stop] = n - 1
-            node_tree_index[start:stop] = tree_index[n - 1] 
+        # the last tree extends to the last node (this includes files with a single tree)
+        tree_stop = np.append(tree_start[1:], total_count)
 
-        node_tree_order[stop:] = n
-        node_tree_index[stop:] = tree_index[n]
+        for n,(start,stop) in enumerate(zip(tree_start,tree_stop)):
+            node_tree_order[start:stop] = n
+            node_tree_index[start:stop] = tree_index[n]
 
         node_index = np.arange(total_count)
 
-- 
2.43.0


From c6d94c3fda1e43356410e536ccaee70b569c445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 26/58] fix: Galacticus node filters use the utility class they
 are given; single subhalos can be selected

---
 pyHalo/Halos/galacticus_util/galacticus_filter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_filter.py b/pyHalo/Halos/galacticus_util/galacticus_filter.py
index cf5d97b..8fc8fd9 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_filter.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_filter.py
@@ -9,7 +9,7 @@ def nodedata_apply_filter(nodedata,nodefilter,galacticus_util = None):
 def nodedata_select_subhalo(nodedata,id, galacticus_util = None):
     """Selects a subhalo specified by an id, returns a dictionary of the subhalo's properties"""
     gutil = GalacticusUtil() if galacticus_util is None else galacticus_util
-    idfilter = nodedata[nodedata[gutil.PARAM_NODE_ID] == id]
+    idfilter = nodedata[gutil.PARAM_NODE_ID] == id
     return {key:val[idfilter][0] for key,val in nodedata.items()}
 
 def nodedata_filter_tree(nodedata, treeindex,galacticus_util = None):
@@ -24,7 +24,7 @@ def nodedata_filter_subhalos(nodedata,galacticus_util= None):
 
 def nodedata_filter_halos(nodedata,galacticus_util = None):
     """Returns a filter that excludes all but halo (excludes sub-halos)"""
-    return np.logical_not(nodedata_filter_subhalos(nodedata))
+    return np.logical_not(nodedata_filter_subhalos(nodedata,galacticus_util))
 
 def nodedata_filter_range(nodedata,range,key,galacticus_util=None):
     """Returns a filter that excludes nodes not within the given range for a specified parameter"""
@@ -43,7 +43,7 @@ def nodedata_filter_virialized(nodedata,galacticus_util= None):
     r = np.linalg.norm(rvec,axis=0)
 
     #Filter halos and get there virial radii
-    filtered_halos = nodedata_filter_halos(nodedata)
+    filtered_halos = nodedata_filter_halos(nodedata,gutil)
     rv_halos = nodedata[gutil.PARAM_RADIUS_VIRIAL][filtered_halos]
     halo_output_n = nodedata[gutil.PARAM_TREE_ORDER]
 
@@ -88,7 +88,8 @@ def project_r2d(x,y,z,plane_normal):
     #Projected distance to plane is sqrt(r.r - (r.un)^2)
     rdotr = np.linalg.norm(coords,axis=0)**2
     rdotun = np.dot(un,coords)
-    return np.sqrt(rdotr - rdotun**2)
+    #rounding can make the difference slightly negative for points on the normal
+    return np.sqrt(np.maximum(rdotr - rdotun**2, 0))
     
 
 
-- 
2.43.0


From 18bfb92a8f4055475b28fc1988b200143871d63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 27/58] fix: colossus functions are evaluated for the cosmology
 of the objects that use them

---
 pyHalo/Cosmology/cosmology.py    | 24 +++++++++++++++++++-----
 pyHalo/Halos/concentration.py    | 19 +++++++++++++++++++
 pyHalo/Halos/lens_cosmo.py       |  3 ++-
 pyHalo/Halos/tidal_truncation.py |  1 +
 4 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/pyHalo/Cosmology/cosmology.py b/pyHalo/Cosmology/cosmology.py
index 736354f..c9ba625 100644
--- a/pyHalo/Cosmology/cosmology.py
+++ b/pyHalo/Cosmology/cosmology.py
@@ -22,7 +22,7 @@ class Cosmology(object):
 
     def __init__(self, astropy_instance=None, cosmo_kwargs={}):
 
-        self.astropy = self._setup_astropy_cosmology(astropy_instance, cosmo_kwargs)
+        self._astropy = self._setup_astropy_cosmology(astropy_instance, cosmo_kwargs)
 
         self._colossus_cosmo = self._setup_colossus_cosmology(cosmo_kwargs)
 
@@ -96,8 +96,22 @@ class Cosmology(object):
             return v
         return self._kpc_per_asec_interp(z)
 
+    @property
+    def astropy(self):
+        """
+        The astropy instance; this also makes the corresponding colossus cosmology the current one, such that classes
+        created from the astropy instance (e.g. concentration models) pick up the matching colossus cosmology
+        """
+        cosmology.setCurrent(self._colossus_cosmo)
+        return self._astropy
+
     @property
     def colossus(self):
+        """
+        The colossus instance; functions in colossus evaluate quantities for the cosmology that is current, so this
+        instance becomes the current one
+        """
+        cosmology.setCurrent(self._colossus_cosmo)
         return self._colossus_cosmo
 
     def halo_age(self, z, zform=10):
@@ -186,7 +200,7 @@ class Cosmology(object):
 
     def _setup_astropy_cosmology(self, astropy_instance, cosmo_kwargs):
 
-        if not hasattr(self, 'astropy'):
+        if not hasattr(self, '_astropy'):
 
             if astropy_instance is None:
 
@@ -201,13 +215,13 @@ class Cosmology(object):
 
                 astropy_instance = astropy_cosmo.FlatLambdaCDM(**astropy_kwargs)
 
-            self.astropy = astropy_instance
+            self._astropy = astropy_instance
 
-        return self.astropy
+        return self._astropy
 
     def _setup_colossus_cosmology(self, cosmo_kwargs):
 
-        if not hasattr(self,'colossus_cosmo'):
+        if not hasattr(self,'_colossus_cosmo'):
 
             colossus_kwargs = {}
             keys = ['H0', 'Om0', 'Ob0', 'ns', 'sigma8', 'power_law']
diff --git a/pyHalo/Halos/concentration.py b/pyHalo/Halos/concentration.py
index 144dbd1..6053e75 100644
--- a/pyHalo/Halos/concentration.py
+++ b/pyHalo/Halos/concentration.py
@@ -1,5 +1,6 @@
 import numpy as numpy
 from colossus.halo.concentration import concentration, peaks
+from colossus.cosmology import cosmology as colossus_cosmology
 import warnings
 import numpy
 from scipy.interpolate import RegularGridInterpolator
@@ -11,6 +12,18 @@ __all__ = ['ConcentrationDiemerJoyce',
            'ConcentrationWDMPolynomial',
            'ConcentrationPeakHeight']
 
+class _ColossusCosmology(object):
+    """
+    Functions in colossus are evaluated for the cosmology that is current in the whole process. This class keeps track
+    of the cosmology that was current when a model was created, and makes it current again before the model is evaluated
+    """
+    def __init__(self):
+        self._colossus = colossus_cosmology.current_cosmo
+
+    def set_current(self):
+        if self._colossus is not None:
+            colossus_cosmology.setCurrent(self._colossus)
+
 class ConcentrationConstant(object):
     name = 'CONSTANT'
     def __init__(self, cosmo, c):
@@ -29,6 +42,7 @@ class _ConcentrationCDM(object):
         :param scatter_dex_z_dep: redshift dependence of the scatter
         """
         self._cosmo = cosmo
+        self._colossus_cosmology = _ColossusCosmology()
         self._scatter = scatter
         self._scatter_dex = scatter_dex
         self._scatter_dex_z_dep = scatter_dex_z_dep
@@ -237,6 +251,7 @@ class ConcentrationDiemerJoyce(_ConcentrationCDM):
         :return: halo concentratioon
         """
         model = 'diemer19'
+        self._colossus_cosmology.set_current()
         if isinstance(M, float) or isinstance(M, int):
             M_h = M * self._cosmo.h
             c = concentration(M_h, mdef=self._mdef, model=model, z=z)
@@ -289,6 +304,7 @@ class ConcentrationLudlow(_ConcentrationCDM):
         :param z: redshift
         :return: halo concentration
         """
+        self._colossus_cosmology.set_current()
         if isinstance(M, numpy.ndarray) and isinstance(z, (numpy.ndarray, list)):
             assert len(z) == len(M)
             c = numpy.array([concentration(mi * self._cosmo.h, mdef=self._mdef, model='ludlow16', z=zi)
@@ -338,6 +354,7 @@ class ConcentrationPeakHeight(_ConcentrationCDM):
         """
         M_h = M * self._cosmo.h
         Mref_h = self._m_pivot * self._cosmo.h
+        self._colossus_cosmology.set_current()
         nu = peaks.peakHeight(M_h, z)
         nu_ref = peaks.peakHeight(Mref_h, z)
         redshift_factor = self._redshift_evolution(M, z)
@@ -620,6 +637,7 @@ class _zEvolutionPeakHeight(object):
 
     def __init__(self, cosmo):
         self._cosmo = cosmo
+        self._colossus_cosmology = _ColossusCosmology()
 
     def __call__(self, m, z):
         """
@@ -631,6 +649,7 @@ class _zEvolutionPeakHeight(object):
         redshift at fixed mass
         """
         M_h = m * self._cosmo.h
+        self._colossus_cosmology.set_current()
         redshift_factor = peaks.peakHeight(M_h, 0.0) / peaks.peakHeight(M_h, z)
         return redshift_factor
 
diff --git a/pyHalo/Halos/lens_cosmo.py b/pyHalo/Halos/lens_cosmo.py
index 827e5e7..ace2122 100644
--- a/pyHalo/Halos/lens_cosmo.py
+++ b/pyHalo/Halos/lens_cosmo.py
@@ -171,7 +171,8 @@ class LensCosmo(object):
         h = self.cosmo.h
         M_h = M * h
         r_h = r * h
-        rho_2h = twoHaloTerm(r_h, M_h, z, mdef=mdef) / self.cosmo._colossus_cosmo.rho_m(z)
+        rho_m = self.cosmo.colossus.rho_m(z)
+        rho_2h = twoHaloTerm(r_h, M_h, z, mdef=mdef) / rho_m
         return rho_2h
 
     def nfw_physical2angle(self, m, c, z, pseudo_nfw=False):
diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index 3196f6a..91d3046 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -37,6 +37,7 @@ class TruncationSplashBack(object):
         :return: the truncation radius
         """
         h = self._lens_cosmo.cosmo.h
+        _ = self._lens_cosmo.colossus # functions in colossus use the current cosmology
         nu200m = peaks.peakHeight(halo_mass * h, z)
         RspR200m_units_rvir, _ = splashback.splashbackModel('RspR200m', nu200m=nu200m, z=z, rspdef='sp-apr-mn')
         r200m_mpc = self._lens_cosmo.rN_M(halo_mass * h, z, 200.0) / self._lens_cosmo.cosmo.astropy.Om0 ** (1./3)
-- 
2.43.0


From 8b54930c1b665e6fdc6e718c02c1cf4d9b2988a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 28/58] fix: exported truncation radii of strongly stripped
 halos are not rounded to zero

---
 pyHalo/Halos/HaloModels/TNFW.py                | 2 +-
 pyHalo/Halos/HaloModels/core_collapsed_halo.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 23f10ae..98c76a2 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -210,7 +210,7 @@ class TNFWFieldHalo(Halo):
             x, y = round(float(self.x), 4), round(float(self.y), 4)
             Rs_angle = round(float(Rs_angle), 10)
             theta_Rs = round(float(theta_Rs), 10)
-            r_trunc_arcsec = round(float(rt / self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)),10)
+            r_trunc_arcsec = float(rt / self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)) # not rounded, has to be > 0
             kwargs = [{'alpha_Rs': self._rescale_norm * theta_Rs, 'Rs': Rs_angle,
                       'center_x': x, 'center_y': y, 'r_trunc': r_trunc_arcsec}]
             self._kwargs_lenstronomy = kwargs
diff --git a/pyHalo/Halos/HaloModels/core_collapsed_halo.py b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
index 026f187..b9066d1 100644
--- a/pyHalo/Halos/HaloModels/core_collapsed_halo.py
+++ b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
@@ -140,7 +140,7 @@ class CoreCollapsedHalo(Halo):
                                       'gamma_inner': gamma_inner,
                                       'gamma_outer': gamma_outer}
 
-            r_trunc_arcsec = np.round(r_trunc_arcsec, 10)
+            r_trunc_arcsec = float(r_trunc_arcsec) # not rounded, has to be > 0
             alpha_Rs_envelope = np.round(alpha_Rs_envelope, 10)
             kwargs_envelope = {'alpha_Rs': alpha_Rs_envelope,
                                'Rs': Rs_angle,
@@ -163,7 +163,7 @@ class CoreCollapsedHalo(Halo):
             Rs_angle = round(float(Rs_angle), 10)
             alpha_Rs_center = round(float(alpha_Rs_center), 10)
             Rs_angle_inner = round(float(Rs_angle_inner), 10)
-            r_trunc_arcsec = round(float(r_trunc_arcsec), 10)
+            r_trunc_arcsec = float(r_trunc_arcsec) # not rounded, has to be > 0
             alpha_Rs_envelope = round(float(alpha_Rs_envelope), 10)
             kwargs = {'center_x': x, 'center_y': y, 'Rs_inner': Rs_angle_inner, 'Rs_outer': Rs_angle,
                       'alpha_Rs_inner': alpha_Rs_center, 'alpha_Rs_outer': alpha_Rs_envelope,
@@ -315,7 +315,7 @@ class CoreCollapsedHaloBH(CoreCollapsedHalo):
 
             x, y = round(float(self.x), 4), round(float(self.y), 4)
             Rs_angle = round(float(Rs_angle), 10)
-            r_trunc_arcsec = round(float(r_trunc_arcsec), 10)
+            r_trunc_arcsec = float(r_trunc_arcsec) # not rounded, has to be > 0
             alpha_Rs_envelope = round(float(alpha_Rs_envelope), 10)
             theta_E_inner = round(float(theta_E_inner), 10)
             kwargs_envelope = {'center_x': x,
@@ -337,7 +337,7 @@ class CoreCollapsedHaloBH(CoreCollapsedHalo):
 
             x, y = np.round(self.x, 4), np.round(self.y, 4)
             Rs_angle = np.round(Rs_angle, 10)
-            r_trunc_arcsec = np.round(r_trunc_arcsec, 10)
+            r_trunc_arcsec = float(r_trunc_arcsec) # not rounded, has to be > 0
             alpha_Rs_envelope = np.round(alpha_Rs_envelope, 10)
             theta_E_inner = np.round(theta_E_inner, 10)
             kwargs = {'center_x': x, 'center_y': y,
-- 
2.43.0


From 8528d4d1b997fb628317ff51554d6693da462059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 29/58] fix: black holes and correlated structure can be added
 to a realization without halos

---
 pyHalo/Rendering/correlated_structure.py | 3 ++-
 pyHalo/realization_extensions.py         | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 9ba9f25..6ad7dc1 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -56,7 +56,8 @@ class CorrelatedStructure(RenderingClassBase):
 
         for i, zi in enumerate(plane_redshifts[0:-1]):
             delta_z.append(plane_redshifts[i + 1] - plane_redshifts[i])
-        delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
+        if len(plane_redshifts) > 0:
+            delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
         rescale_indexes = []
         rescale_factor = 1.
         for z, dz in zip(plane_redshifts, delta_z):
diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 86600ba..6162dd9 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -123,7 +123,8 @@ class RealizationExtensions(object):
         delta_z = []
         for i, zi in enumerate(plane_redshifts[0:-1]):
             delta_z.append(plane_redshifts[i + 1] - plane_redshifts[i])
-        delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
+        if len(plane_redshifts) > 0:
+            delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
 
         for (zi, delta_zi) in zip(plane_redshifts, delta_z):
             kwargs_model_subres = {'m_pivot': 10 ** 8,
@@ -1092,7 +1093,8 @@ class RealizationExtensions(object):
         delta_z = []
         for i, zi in enumerate(plane_redshifts[0:-1]):
             delta_z.append(plane_redshifts[i + 1] - plane_redshifts[i])
-        delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
+        if len(plane_redshifts) > 0:
+            delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
 
         mass_fraction_smooth = (1 - mass_fraction_in_halos) * pbh_mass_fraction
         mass_fraction_clumpy = pbh_mass_fraction * mass_fraction_in_halos
-- 
2.43.0


From 5e41ddcee410f3d897901f82431c722224c06d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 30/58] fix: preset model name DMEmulator refers to an existing
 function

---
 pyHalo/preset_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/preset_models.py b/pyHalo/preset_models.py
index 3138a40..9d45fd2 100644
--- a/pyHalo/preset_models.py
+++ b/pyHalo/preset_models.py
@@ -34,8 +34,8 @@ def preset_model_from_name(name, custom_function=None):
         from pyHalo.PresetModels.uldm import ULDM
         return ULDM
     elif name == 'DMEmulator':
-        from pyHalo.PresetModels.external import DMFromEmulator
-        return DMFromEmulator
+        from pyHalo.PresetModels.external import DMSubhalosFromEmulator
+        return DMSubhalosFromEmulator
     elif name == 'WDM_mixed':
         from pyHalo.PresetModels.wdm import WDM_mixed
         return WDM_mixed
-- 
2.43.0


From 83ecfb68161e4c9b115ba17a47e386eab513dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:11 +0000
Subject: [PATCH 31/58] fix: halo_age accepts arrays of redshifts

---
 pyHalo/Cosmology/cosmology.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Cosmology/cosmology.py b/pyHalo/Cosmology/cosmology.py
index c9ba625..0f987f1 100644
--- a/pyHalo/Cosmology/cosmology.py
+++ b/pyHalo/Cosmology/cosmology.py
@@ -124,10 +124,8 @@ class Cosmology(object):
                 self._cache_age[key] = v
             return v
         halo_form = self._halo_age_interp(zform)
-        if z > zform:
-            return 0
-        else:
-            return self._halo_age_interp(z) - halo_form
+        z = np.asarray(z)
+        return np.where(z > zform, 0.0, self._halo_age_interp(z) - halo_form)
 
     @property
     def _halo_age_interp(self):
-- 
2.43.0


From 7bc2ff714092b9ed2de09e61713d98ae355b5050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 32/58] fix: truncation-radius table does not depend on earlier
 queries or an interrupted rebuild

---
 pyHalo/Halos/batch_halo_util.py               | 30 +--------
 .../transfer_function_density_profile.py      | 64 ++++++-------------
 2 files changed, 24 insertions(+), 70 deletions(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index 3462efe..03baaef 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -330,37 +330,13 @@ def _reference_model_factors():
     return _REF_FACTORS
 
 
-_TRUNC_TABLE = {'interp': None, 'logM_min': None, 'logM_max': None}
-
 def _truncation_radius_cached(M, f_t):
     """
-    Same computation as transfer_function_density_profile._Truncation_Radius
-    for (1, 3, 1, 2), but the mass table AND the cubic log-log interpolator are
-    built once and reused; the per-halo implementation rebuilds the cubic
-    spline on every call, which dominates its runtime.
+    transfer_function_density_profile._Truncation_Radius for (1, 3, 1, 2); the mass table and its log-log cubic interpolator are built
+    once and reused
     """
-    from scipy.interpolate import interp1d
     from pyHalo.Halos.galacticus_truncation import transfer_function_density_profile as tf
-    M_unnormalized = np.asarray(M, dtype=float) / np.asarray(f_t, dtype=float)
-    logM = np.log(M_unnormalized)
-    tab = _TRUNC_TABLE
-    if (tab['interp'] is None or np.min(logM) < tab['logM_min']
-            or np.max(logM) > tab['logM_max']):
-        x_min, x_max = 1.0e-6, 1.0e+4
-        M_min = tf._M_total_generalized_NFW_Truncated_dimensionless(x_min, 1.0, 3.0, 1.0, 2.0)
-        M_max = tf._M_total_generalized_NFW_Truncated_dimensionless(x_max, 1.0, 3.0, 1.0, 2.0)
-        while np.min(M_unnormalized) < M_min:
-            x_min /= 2.0
-            M_min = tf._M_total_generalized_NFW_Truncated_dimensionless(x_min, 1.0, 3.0, 1.0, 2.0)
-        while np.max(M_unnormalized) > M_max:
-            x_max *= 2.0
-            M_max = tf._M_total_generalized_NFW_Truncated_dimensionless(x_max, 1.0, 3.0, 1.0, 2.0)
-        n_tab = int(np.log10(x_max / x_min) * 10)
-        x_tab = np.geomspace(x_min, x_max, n_tab)
-        m_tab = tf._M_total_generalized_NFW_Truncated_dimensionless(x_tab, 1.0, 3.0, 1.0, 2.0)
-        tab['interp'] = interp1d(np.log(m_tab), np.log(x_tab), kind='cubic')
-        tab['logM_min'], tab['logM_max'] = np.log(m_tab[0]), np.log(m_tab[-1])
-    return np.exp(tab['interp'](logM))
+    return tf._Truncation_Radius(np.asarray(M, dtype=float), np.asarray(f_t, dtype=float), 1.0, 3.0, 1.0, 2.0)
 
 
 def precompute_tnfw_subhalos(subhalos, truncation_class):
diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index bead454..3ed103b 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -660,18 +660,21 @@ def _M_total_generalized_NFW_Truncated_dimensionless(tau, alpha=1.0, beta=3.0, g
 N_per_decade = 10
 x_min = 1.0e-6
 x_max = 1.0e+4
-N_tab = int(np.log10(x_max / x_min) * N_per_decade)
-x_tab = np.geomspace(x_min, x_max, N_tab)
-M_tab = np.zeros(N_tab)
 
-Mass_table_Initialized = False
-alpha_used = None
-beta_used = None
-gamma_used = None
-delta_used = None
-M_min = np.inf
-M_max = 0.0
-x_M_interp_loglog = None
+
+@lru_cache(maxsize=32)
+def _truncation_radius_table(n_halve, n_double, alpha, beta, gamma, delta):
+    """
+    Return the inverse interpolation of the total mass of a truncated generalized NFW profile, and the mass range it covers
+    :param n_halve: how often the smallest tabulated radius (x_min) is halved
+    :param n_double: how often the largest tabulated radius (x_max) is doubled
+    :return: interpolation of log(x) as a function of log(mass), minimum mass, maximum mass
+    """
+    x_lo, x_hi = x_min / 2.0 ** n_halve, x_max * 2.0 ** n_double
+    N_tab = int(np.log10(x_hi / x_lo) * N_per_decade)
+    x_tab = np.geomspace(x_lo, x_hi, N_tab)
+    M_tab = _M_total_generalized_NFW_Truncated_dimensionless(x_tab, alpha, beta, gamma, delta)
+    return interp1d(np.log(M_tab), np.log(x_tab), kind='cubic'), M_tab[0], M_tab[-1]
 
 
 def _Truncation_Radius(M, f_t, alpha=1.0, beta=3.0, gamma=1.0, delta=2.0):
@@ -689,40 +692,15 @@ def _Truncation_Radius(M, f_t, alpha=1.0, beta=3.0, gamma=1.0, delta=2.0):
     :return: the dimensionless truncation radius
     """
 
-    global N_per_decade, x_min, x_max, N_tab, x_tab, M_tab
-    global Mass_table_Initialized, alpha_used, beta_used, gamma_used, delta_used, M_min, M_max
-    global x_M_interp_loglog
-
     M_unnormalized = M / f_t
 
-    retabulate = True
-    if (Mass_table_Initialized and alpha_used == alpha and beta_used == beta and gamma_used == gamma \
-        and delta_used == delta and np.min(M_unnormalized) >= M_min and np.max(M_unnormalized) <= M_max):
-        retabulate = False
-    if (retabulate):
-        M_min = _M_total_generalized_NFW_Truncated_dimensionless(x_min, alpha, beta, gamma, delta)
-        M_max = _M_total_generalized_NFW_Truncated_dimensionless(x_max, alpha, beta, gamma, delta)
-        while (np.min(M_unnormalized) < M_min):
-            x_min = x_min / 2.0
-            M_min = _M_total_generalized_NFW_Truncated_dimensionless(x_min, alpha, beta, gamma, delta)
-
-        while (np.max(M_unnormalized) > M_max):
-            x_max = x_max * 2.0
-            M_max = _M_total_generalized_NFW_Truncated_dimensionless(x_max, alpha, beta, gamma, delta)
-
-        N_tab = int(np.log10(x_max / x_min) * N_per_decade)
-        x_tab = np.geomspace(x_min, x_max, N_tab)
-        M_tab = _M_total_generalized_NFW_Truncated_dimensionless(x_tab, alpha, beta, gamma, delta)
-        # build the inverse interpolation once per (re)tabulation rather than
-        # once per call; constructing the cubic spline dominates the runtime
-        # of this function when called halo-by-halo
-        x_M_interp_loglog = interp1d(np.log(M_tab), np.log(x_tab), kind='cubic')
-
-        Mass_table_Initialized = True
-        alpha_used = alpha
-        beta_used = beta
-        gamma_used = gamma
-        delta_used = delta
+    # the table used is a function of the masses asked for only, whatever was asked before
+    n_halve = n_double = 0
+    x_M_interp_loglog, M_min, M_max = _truncation_radius_table(n_halve, n_double, alpha, beta, gamma, delta)
+    while (np.min(M_unnormalized) < M_min or np.max(M_unnormalized) > M_max):
+        n_halve += int(np.min(M_unnormalized) < M_min)
+        n_double += int(np.max(M_unnormalized) > M_max)
+        x_M_interp_loglog, M_min, M_max = _truncation_radius_table(n_halve, n_double, alpha, beta, gamma, delta)
 
     return np.exp(x_M_interp_loglog(np.log(M_unnormalized)))
 
-- 
2.43.0


From cb75e7ae4b6056552d4d9c4521fe57d7fc99b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 33/58] fix: an interrupted distance lookup is not mistaken for
 an out-of-range redshift

---
 pyHalo/Cosmology/cosmology.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Cosmology/cosmology.py b/pyHalo/Cosmology/cosmology.py
index 0f987f1..db14a83 100644
--- a/pyHalo/Cosmology/cosmology.py
+++ b/pyHalo/Cosmology/cosmology.py
@@ -61,13 +61,13 @@ class Cosmology(object):
             if v is None:
                 try:
                     v = float(self._DA_interp(zf))
-                except:
+                except ValueError:  # outside of the interpolated range
                     v = self.D_A(0, zf)
                 self._cache_DAz[zf] = v
             return v
         try:
             return self._DA_interp(z)
-        except:
+        except ValueError:  # outside of the interpolated range
             return self.D_A(0, z)
 
     def D_C_z(self, z):
@@ -77,13 +77,13 @@ class Cosmology(object):
             if v is None:
                 try:
                     v = float(self._DC_interp(zf))
-                except:
+                except ValueError:  # outside of the interpolated range
                     v = self.D_A_z(zf) / self.scale_factor(zf)
                 self._cache_DCz[zf] = v
             return v
         try:
             return self._DC_interp(z)
-        except:
+        except ValueError:  # outside of the interpolated range
             return self.D_A_z(z) / self.scale_factor(z)
 
     def kpc_proper_per_asec(self, z):
-- 
2.43.0


From 15ee2fab6056a5df5d212e9eb79d7015b4adf013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 34/58] fix: bound masses drawn by TruncationGalacticusKeeley24
 do not exceed the infall mass

---
 pyHalo/Halos/galacticus_truncation/interp_mass_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py b/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
index a7f05b9..630be44 100644
--- a/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
+++ b/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
@@ -36,7 +36,7 @@ class InterpGalacticusKeeley24(object):
         scatter_dex = self.evaluate_scatter_dex(log10_concentration_infall, time_since_infall, host_concentration)
         scatter_dex = max(scatter_dex, 0.001)
         output = np.random.normal(mean, scatter_dex)
-        return output
+        return min(output, 0.0)
 
     def evaluate_mean_mass_loss(self, log10_concentration_infall, time_since_infall, host_concentration):
         """
-- 
2.43.0


From a0a68d7878c05952d00dc265761f2647c27ce2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 35/58] fix: Keeley24 subhalo truncation radii follow from the
 bound mass of the halo

---
 pyHalo/Halos/tidal_truncation.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index 91d3046..1ab56ba 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -245,6 +245,15 @@ class TruncationGalacticusKeeley24(object):
         return self.truncation_radius(halo.mass, halo.c,
                                       halo.time_since_infall, self._chost, halo.z_eval)
 
+    def truncation_radius_from_bound_mass(self, halo, m_bound):
+        """
+        This method computes the truncation radius given the bound mass of a halo
+        :param halo: an instance of a Halo class
+        :param m_bound: the bound mass in solar masses
+        :return: the truncation radius in physical kpc
+        """
+        return self._truncation_radius_from_mass_loss(halo.mass, halo.c, np.log10(m_bound / halo.mass), halo.z_eval)
+
     def truncation_radius(self, halo_mass, infall_concentration,
                           time_since_infall, chost, z_eval):
         """
@@ -258,6 +267,18 @@ class TruncationGalacticusKeeley24(object):
         """
         log10c = np.log10(infall_concentration)
         log10mbound_over_minfall = self._mass_loss_interp(log10c, time_since_infall, chost)
+        return self._truncation_radius_from_mass_loss(halo_mass, infall_concentration, log10mbound_over_minfall, z_eval)
+
+    def _truncation_radius_from_mass_loss(self, halo_mass, infall_concentration, log10mbound_over_minfall, z_eval):
+        """
+
+        :param halo_mass:
+        :param infall_concentration:
+        :param log10mbound_over_minfall: log10 of the bound mass divided by the infall mass
+        :param z_eval:
+        :return: the truncation radius in physical kpc
+        """
+        log10c = np.log10(infall_concentration)
         point = self._make_params_in_bounds_tau_evaluate((log10c, log10mbound_over_minfall))
         log10tau = float(self._tau_mf_interpolation(point))
         tau = 10 ** log10tau
-- 
2.43.0


From 73d64492345278525c5626f4031b5f086db83dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 36/58] fix: batched galacticus mass loss uses the host
 concentration range of the per-halo evaluation

---
 pyHalo/Halos/batch_halo_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index 03baaef..49f9891 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -270,7 +270,7 @@ def galacticus_mass_loss_vectorized(mass_loss_interp, log10c, t_or_dz, chost):
     if cls == 'InterpGalacticus':
         log10c = np.clip(log10c, np.log10(2.), np.log10(384.))
         t_or_dz = np.clip(t_or_dz, 0.0, 8.1)
-        chost = min(max(chost, 4.0), 9.0)
+        chost = min(max(chost, 4.0), 8.0)
     elif cls == 'InterpGalacticusZinfall':
         log10c = np.clip(log10c, np.log10(2.), np.log10(384.))
         t_or_dz = np.clip(t_or_dz, 0.001, 9.5)
-- 
2.43.0


From 01f0f08cc6e551a5685d131c0e22a5b1ef74e2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 37/58] fix: concentration models made inside LensCosmo,
 MeanDensity truncation and ProjectedNFW use the cosmology of their LensCosmo

---
 pyHalo/Halos/lens_cosmo.py                   | 2 +-
 pyHalo/Halos/tidal_truncation.py             | 2 +-
 pyHalo/Rendering/SpatialDistributions/nfw.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/lens_cosmo.py b/pyHalo/Halos/lens_cosmo.py
index ace2122..4f5b5e3 100644
--- a/pyHalo/Halos/lens_cosmo.py
+++ b/pyHalo/Halos/lens_cosmo.py
@@ -254,7 +254,7 @@ class LensCosmo(object):
         """
         if not hasattr(self, '_concentration_mass_relation'):
             from pyHalo.Halos.concentration import ConcentrationDiemerJoyce
-            self._concentration_mass_relation = ConcentrationDiemerJoyce(self.cosmo, scatter=False)
+            self._concentration_mass_relation = ConcentrationDiemerJoyce(self.cosmo.astropy, scatter=False)
         return self._concentration_mass_relation
 
     def NFW_params_physical_fromMZ(self, m, z, scale_concentration=1.0, pseudo_nfw=False):
diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index 1ab56ba..d2f0942 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -135,7 +135,7 @@ class TruncateMeanDensity(object):
         self._cpower = c_power
         self.lens_cosmo = lens_cosmo
         self._scatter = intrinsic_scatter
-        self._concentration_cdm = ConcentrationDiemerJoyce(lens_cosmo.cosmo,
+        self._concentration_cdm = ConcentrationDiemerJoyce(lens_cosmo.cosmo.astropy,
                                                            scatter=False)
 
     def truncation_radius_halo(self, halo):
diff --git a/pyHalo/Rendering/SpatialDistributions/nfw.py b/pyHalo/Rendering/SpatialDistributions/nfw.py
index 2d5647e..d878865 100644
--- a/pyHalo/Rendering/SpatialDistributions/nfw.py
+++ b/pyHalo/Rendering/SpatialDistributions/nfw.py
@@ -48,7 +48,7 @@ class ProjectedNFW(SpatialDistributionBase):
         :return:
         """
         if c_host is None:
-            c_model = ConcentrationDiemerJoyce(lens_cosmo)
+            c_model = ConcentrationDiemerJoyce(lens_cosmo.cosmo.astropy)
             c_host = c_model.nfw_concentration(m_host, zlens)
         _, rs_mpc, r_200_mpc = lens_cosmo.nfwParam_physical(m_host, c_host, zlens)
         arcsec_to_kpc = lens_cosmo.cosmo.kpc_proper_per_asec(zlens)
-- 
2.43.0


From cb506b60825cb75cd8e22b84fe450a07035cf159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 38/58] fix: lens planes no longer coincide with the main
 deflector or the source through rounding

---
 pyHalo/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyHalo/utilities.py b/pyHalo/utilities.py
index 7f90b48..57e802d 100644
--- a/pyHalo/utilities.py
+++ b/pyHalo/utilities.py
@@ -88,8 +88,11 @@ def generate_lens_plane_redshifts(zlens, zsource, lens_plane_spacing=None):
         redshifts = np.arange(zmin, zsource, lens_plane_spacing)
     else:
         front_z = np.arange(zmin, zlens, lens_plane_spacing)
+        # rounding in arange can add a plane of zero thickness on top of the main deflector, or at the source
+        front_z = front_z[front_z < zlens - 1e-8]
         back_z = np.arange(zlens, zsource, lens_plane_spacing)
         redshifts = np.append(front_z, back_z)
+    redshifts = redshifts[redshifts < zsource - 1e-8]
     delta_zs = []
     for i in range(0, len(redshifts) - 1):
         delta_zs.append(redshifts[i + 1] - redshifts[i])
-- 
2.43.0


From ecf30a61e66bd40e457d04d63074755aa01e2f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 39/58] fix: mass functions with a turnover are empty when the
 mass range is empty

---
 pyHalo/Rendering/MassFunctions/mass_function_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyHalo/Rendering/MassFunctions/mass_function_base.py b/pyHalo/Rendering/MassFunctions/mass_function_base.py
index 46d9914..40f6176 100644
--- a/pyHalo/Rendering/MassFunctions/mass_function_base.py
+++ b/pyHalo/Rendering/MassFunctions/mass_function_base.py
@@ -82,6 +82,10 @@ class _PowerLawTurnoverBase(object):
         self._normalization = normalization
         self._kwargs_mass_function = kwargs_mass_function
         self._mass_function_unbroken = _PowerLawBase(log_mlow, log_mhigh, power_law_index, draw_poisson, normalization)
+        if log_mlow >= log_mhigh:
+            self.n_mean = 0
+            self.first_moment = 0
+            return
         self.n_mean = integrate_power_law_quad(normalization, 10 ** log_mlow, 10 ** log_mhigh,
                                                          0.0, power_law_index, self._turnover,
                                                      self._kwargs_mass_function)
-- 
2.43.0


From 024f41d55a809945fa65f64349c96c5d90323f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 40/58] fix: Sheth-Tormen mass functions with an empty mass
 range contain no halos instead of raising

---
 .../Rendering/MassFunctions/density_peaks.py   | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Rendering/MassFunctions/density_peaks.py b/pyHalo/Rendering/MassFunctions/density_peaks.py
index ffda8e1..5dd15db 100644
--- a/pyHalo/Rendering/MassFunctions/density_peaks.py
+++ b/pyHalo/Rendering/MassFunctions/density_peaks.py
@@ -23,6 +23,18 @@ def evaluate_mass_function(m, h, z, model):
     dndM_comoving = dndM_comoving_h * h ** 3
     return dndM_comoving
 
+def _mass_grid(log_mlow, log_mhigh):
+    """
+    The masses at which the mass function is evaluated to fit a power law; an empty mass range (log_mlow >= log_mhigh)
+    contains no halos, but the fit still requires distinct masses
+    :param log_mlow: log10 of the minimum halo mass
+    :param log_mhigh: log10 of the maximum halo mass
+    :return: array of halo masses [M_sun]
+    """
+    if log_mlow >= log_mhigh:
+        log_mhigh = log_mlow + 1.0
+    return np.logspace(log_mlow, log_mhigh, 10)
+
 class ShethTormen(CDMPowerLaw):
     """
     This class samples from the Sheth-Tormen halo mass function
@@ -48,7 +60,7 @@ class ShethTormen(CDMPowerLaw):
         _ = geometry_class.cosmo.colossus
         m_pivot = kwargs_model['m_pivot']
         h = geometry_class.cosmo.h
-        m = np.logspace(kwargs_model['log_mlow'], kwargs_model['log_mhigh'], 10)
+        m = _mass_grid(kwargs_model['log_mlow'], kwargs_model['log_mhigh'])
         dndM_comoving = evaluate_mass_function(m, h, z, 'sheth99')
         coeffs = np.polyfit(np.log10(m / m_pivot), np.log10(dndM_comoving), 1)
         plaw_index = coeffs[0] + kwargs_model['delta_power_law_index']
@@ -90,7 +102,7 @@ class ShethTormenTurnover(WDMPowerLaw):
         _ = geometry_class.cosmo.colossus
         m_pivot = kwargs_model['m_pivot']
         h = geometry_class.cosmo.h
-        m = np.logspace(kwargs_model['log_mlow'], kwargs_model['log_mhigh'], 10)
+        m = _mass_grid(kwargs_model['log_mlow'], kwargs_model['log_mhigh'])
         dndM_comoving = evaluate_mass_function(m, h, z, 'sheth99')
         coeffs = np.polyfit(np.log10(m / m_pivot), np.log10(dndM_comoving), 1)
         plaw_index = coeffs[0] + kwargs_model['delta_power_law_index']
@@ -133,7 +145,7 @@ class ShethTormenMixedWDM(MixedWDMPowerLaw):
         colossus_cosmo = geometry_class.cosmo.colossus
         m_pivot = kwargs_model['m_pivot']
         h = geometry_class.cosmo.h
-        m = np.logspace(kwargs_model['log_mlow'], kwargs_model['log_mhigh'], 10)
+        m = _mass_grid(kwargs_model['log_mlow'], kwargs_model['log_mhigh'])
         dndM_comoving = evaluate_mass_function(m, h, z, 'sheth99')
         coeffs = np.polyfit(np.log10(m / m_pivot), np.log10(dndM_comoving), 1)
         plaw_index = coeffs[0] + kwargs_model['delta_power_law_index']
-- 
2.43.0


From 67aa68369b75628e7136a8c3d66e4a7d85b19d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 41/58] fix: BinnedHaloMass accepts halos at the edges of its
 mass range

---
 pyHalo/Halos/concentration.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/concentration.py b/pyHalo/Halos/concentration.py
index 6053e75..f7220cb 100644
--- a/pyHalo/Halos/concentration.py
+++ b/pyHalo/Halos/concentration.py
@@ -603,10 +603,11 @@ class BinnedHaloMass(_ConcentrationCDM):
         :return: bool
         """
         if isinstance(M, float) or isinstance(M, int):
-            if M < 10 ** self._log10_mass_bins[0][0]:
+            # halos at the edge of the mass range can be outside of it by a rounding error
+            if M < 10 ** self._log10_mass_bins[0][0] * (1 - 1e-9):
                 raise ValueError('Halo mass '+str(numpy.log10(M))+' is below the minimum halo '
                                                                   'mass bin: ', self._log10_mass_bins[0])
-            elif M > 10 ** self._log10_mass_bins[-1][1]:
+            elif M > 10 ** self._log10_mass_bins[-1][1] * (1 + 1e-9):
                 raise ValueError('Halo mass ' + str(numpy.log10(M)) + ' is above the maximum halo '
                                                                       'mass bin: ', self._log10_mass_bins[-1])
         return
@@ -628,9 +629,8 @@ class BinnedHaloMass(_ConcentrationCDM):
         for bin_number in range(0, len(self._log10_mass_bins)):
             if M < 10 ** self._log10_mass_bins[bin_number][1]:
                 return float(self._model_list[bin_number]._evaluate_concentration(M, z))
-        else:
-            raise ValueError('M  did not fall inside any specified mass bins! log10(M) = '+str(numpy.log10(M))+' '
-                        'mass bins: '+str(self._log10_mass_bins))
+        # the upper edge of the mass range belongs to the last bin
+        return float(self._model_list[-1]._evaluate_concentration(M, z))
 
 
 class _zEvolutionPeakHeight(object):
-- 
2.43.0


From 40110274a09c81eb2639633679571ba35d207159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 42/58] fix: the rendering volume extends to the source
 redshift

---
 pyHalo/Cosmology/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Cosmology/geometry.py b/pyHalo/Cosmology/geometry.py
index bff62e6..1525d8d 100644
--- a/pyHalo/Cosmology/geometry.py
+++ b/pyHalo/Cosmology/geometry.py
@@ -54,8 +54,8 @@ class Geometry(object):
         volume = 0
         delta_z = 0.01
         z = np.arange(0.0, self._zsource, delta_z)
-        for i in range(0, len(z) - 1):
-            volume += self.volume_element_comoving(z[i], delta_z)
+        for zi in z:
+            volume += self.volume_element_comoving(zi, min(delta_z, self._zsource - zi))
         return volume
 
     def rendering_scale(self, z):
-- 
2.43.0


From da0c74987a556ad396b5e045a9a7b46f16dff301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 43/58] fix: comoving distances of lists of redshifts beyond
 the interpolated range

---
 pyHalo/Cosmology/cosmology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Cosmology/cosmology.py b/pyHalo/Cosmology/cosmology.py
index db14a83..ff55e1d 100644
--- a/pyHalo/Cosmology/cosmology.py
+++ b/pyHalo/Cosmology/cosmology.py
@@ -84,7 +84,7 @@ class Cosmology(object):
         try:
             return self._DC_interp(z)
         except ValueError:  # outside of the interpolated range
-            return self.D_A_z(z) / self.scale_factor(z)
+            return self.D_A_z(z) / self.scale_factor(np.asarray(z))
 
     def kpc_proper_per_asec(self, z):
         if np.ndim(z) == 0:
-- 
2.43.0


From 3902387599b808e55509e17a8179d4c87a59e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:16 +0000
Subject: [PATCH 44/58] fix: power laws whose exponent rounds to almost zero
 keep their digits

---
 pyHalo/Rendering/MassFunctions/mass_function_base.py | 4 ++++
 pyHalo/Rendering/MassFunctions/util.py               | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/pyHalo/Rendering/MassFunctions/mass_function_base.py b/pyHalo/Rendering/MassFunctions/mass_function_base.py
index 40f6176..c9897b2 100644
--- a/pyHalo/Rendering/MassFunctions/mass_function_base.py
+++ b/pyHalo/Rendering/MassFunctions/mass_function_base.py
@@ -53,6 +53,10 @@ class _PowerLawBase(object):
         if self._index == -1:
             norm = np.log(mH / mL)
             X = mL * np.exp(norm * x)
+        elif abs(1 + self._index) < 1e-6:
+            # the powers below lose all of their digits as the exponent approaches zero
+            exponent = 1 + self._index
+            X = mL * np.exp(np.log1p(x * np.expm1(exponent * np.log(mH / mL))) / exponent)
         else:
             X = (x * (mH ** (1 + self._index) - mL ** (1 + self._index)) + mL ** (
                 1 + self._index)) ** (
diff --git a/pyHalo/Rendering/MassFunctions/util.py b/pyHalo/Rendering/MassFunctions/util.py
index 999dddf..5f22ed1 100644
--- a/pyHalo/Rendering/MassFunctions/util.py
+++ b/pyHalo/Rendering/MassFunctions/util.py
@@ -15,6 +15,9 @@ def integrate_power_law_analytic(norm, m_low, m_high, n, plaw_index):
     factor = n + 1 + plaw_index
     if factor == 0:
         integral = np.log(m_high / m_low)
+    elif abs(factor) < 1e-6:
+        # the difference between the two powers loses all of its digits as the exponent approaches zero
+        integral = m_low ** factor * np.expm1(factor * np.log(m_high / m_low)) / factor
     else:
         integral = (m_high ** factor - m_low ** factor) / factor
     return norm * integral
-- 
2.43.0


From ce4c9cccd60d9d92531790dcd293e56aae8a169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 45/58] fix: expected numbers and masses of turnover mass
 functions over wide mass ranges

---
 pyHalo/Rendering/MassFunctions/util.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Rendering/MassFunctions/util.py b/pyHalo/Rendering/MassFunctions/util.py
index 5f22ed1..23f1bdc 100644
--- a/pyHalo/Rendering/MassFunctions/util.py
+++ b/pyHalo/Rendering/MassFunctions/util.py
@@ -28,7 +28,10 @@ def integrate_power_law_quad(norm, m_low, m_high, n, plaw_index, turnover_functi
     Numerically integrates a power law profile with an arbitrary turnover or shape function
     """
 
-    def _integrand_wdm(m):
-        return norm * m ** (n + plaw_index) * turnover_function(m, **kwargs_turnover)
-    moment = quad(_integrand_wdm, m_low, m_high)[0]
-    return moment
+    # integrate over log(m), in units of the lower limit: over several decades in mass the integrand per unit mass is
+    # concentrated in a part of the interval that quad does not sample
+    def _integrand_wdm(log_m):
+        m = np.exp(log_m)
+        return (m / m_low) ** (n + 1 + plaw_index) * turnover_function(m, **kwargs_turnover)
+    moment = quad(_integrand_wdm, np.log(m_low), np.log(m_high), epsabs=0.0)[0]
+    return norm * m_low ** (n + 1 + plaw_index) * moment
-- 
2.43.0


From bf8d97349e6d4c1dc7cd41d2359d7114fa0ebc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 46/58] fix: concentrations of halo masses given as numpy
 integers or 32-bit floats

---
 pyHalo/Halos/concentration.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Halos/concentration.py b/pyHalo/Halos/concentration.py
index f7220cb..8b487ea 100644
--- a/pyHalo/Halos/concentration.py
+++ b/pyHalo/Halos/concentration.py
@@ -55,8 +55,9 @@ class _ConcentrationCDM(object):
         :param force_no_scatter: bool; if True, will return the median concentration
         :return:
         """
-        if isinstance(m, float) or isinstance(m, int):
-            c = float(self._evaluate_concentration(m, z))
+        if numpy.ndim(m) == 0:
+            # includes numpy scalars that are not subclasses of float
+            c = float(self._evaluate_concentration(float(m), z))
         else:
             c = numpy.array([self._evaluate_concentration(mi, z) for mi in m])
         if self._scatter:
@@ -200,7 +201,7 @@ class _ConcentrationTurnover(object):
         """
         c_cdm = self._cdm_concentration.nfw_concentration(m, z)
         c_wdm = c_cdm * self.suppression(m, z)
-        if isinstance(c_wdm, float):
+        if numpy.ndim(c_wdm) == 0:
             c_wdm = max(c_wdm, self._universal_minimum)
         else:
             c_wdm[numpy.where(c_wdm < self._universal_minimum)] = self._universal_minimum
@@ -535,7 +536,7 @@ class ConcentrationLudlowWDM(_ConcentrationTurnover):
         """
         c_cdm = self._cdm_concentration.nfw_concentration(m, z)
         c_wdm = c_cdm * self.suppression(m, z)
-        if isinstance(c_wdm, float):
+        if numpy.ndim(c_wdm) == 0:
             c_wdm = max(c_wdm, self._universal_minimum)
         else:
             c_wdm[numpy.where(c_wdm < self._universal_minimum)] = self._universal_minimum
-- 
2.43.0


From 6b46cb128538ae711fd6636ac9a4206901e465f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 47/58] fix: core collapsed halos keep the concentration of the
 halo they replace

---
 pyHalo/realization_extensions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 6162dd9..ba1dbe2 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -889,7 +889,8 @@ class RealizationExtensions(object):
 
                 else:
                     truncation_class = halo._truncation_class
-                    concentration_class = halo._concentration_class
+                    # the new object describes the same halo: keep its concentration
+                    concentration_class = ConcentrationConstant(None, halo.c)
                     args_halo = dict(halo.args_profile)
                     args_halo.update(kwargs_halo)
                     if is_subhalo:
-- 
2.43.0


From ebba90ae96a07f8959f9e80f9060c6395bf6aba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 48/58] fix: expected number of globular clusters follows their
 surface mass density

---
 pyHalo/realization_extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index ba1dbe2..cd491f0 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -209,7 +209,7 @@ class RealizationExtensions(object):
         # integral equivalent to 10 ** (log10_mgc_mean + log10_mgc_sigma ** 2 * np.log(10) / 2)
         integral = np.exp(np.log(10 ** log10_mgc_mean) + np.log(10 ** log10_mgc_sigma) ** 2 / 2)
         mass_in_gc = np.pi * gc_surface_mass_density * (rendering_radius_arcsec * kpc_per_arcsec) ** 2
-        n = int(mass_in_gc / integral)
+        n = mass_in_gc / integral
         mfunc = Gaussian(n, log10_mgc_mean, log10_mgc_sigma)
         for x_center, y_center in zip(center_x, center_y):
             m = mfunc.draw()
-- 
2.43.0


From 6d6f40fded30663314710b618c32e3a0b76cf752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 49/58] fix: globular clusters around a centre given as a numpy
 number

---
 pyHalo/realization_extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index cd491f0..44e119d 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -197,7 +197,7 @@ class RealizationExtensions(object):
         :return: an instance of Realization that includes the GC's
         """
 
-        if isinstance(center_x, int) or isinstance(center_x, float):
+        if np.ndim(center_x) == 0:
             center_x = [center_x]
             center_y = [center_y]
         assert len(center_x) == len(center_y)
-- 
2.43.0


From 0217d3c8f000e965f338285f9f44257f19f4cc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 50/58] fix: black holes below the mass resolution follow the
 centre of the rendering volume

---
 pyHalo/realization_extensions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 44e119d..3f0725e 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -126,6 +126,7 @@ class RealizationExtensions(object):
         if len(plane_redshifts) > 0:
             delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
 
+        center_x_interp, center_y_interp = self._realization.rendering_center
         for (zi, delta_zi) in zip(plane_redshifts, delta_z):
             kwargs_model_subres = {'m_pivot': 10 ** 8,
                                'log_mlow': log10_mlow_halos_subres,
@@ -139,8 +140,10 @@ class RealizationExtensions(object):
             mass_sub_resolution = mfunc_sub_resolution.draw()
             uniform_spatial_distribution = LensConeUniform(self._realization.geometry.cone_opening_angle,
                                                            self._realization.geometry)
-            x_kpc, y_kpc = uniform_spatial_distribution.draw(len(mass_sub_resolution),
-                                                             zi)
+            d = self._realization.lens_cosmo.cosmo.D_C_transverse(zi)
+            x_kpc, y_kpc = uniform_spatial_distribution.draw(len(mass_sub_resolution), zi,
+                                                             center_x=center_x_interp(d),
+                                                             center_y=center_y_interp(d))
             kpc_per_arcsec = self._realization.lens_cosmo.cosmo.kpc_proper_per_asec(zi)
             x = x_kpc / kpc_per_arcsec
             y = y_kpc / kpc_per_arcsec
-- 
2.43.0


From 693a2908c6b84e37e51ef2a527dfd84578d86973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:46 +0000
Subject: [PATCH 51/58] fix: structure around halos where density fluctuations
 make the convergence negative

---
 pyHalo/Rendering/correlated_structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 6ad7dc1..9ba6e77 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -177,7 +177,9 @@ class CorrelatedStructure(RenderingClassBase):
         pdf[inds_nan] = 0.
         npixels = len(rr) - len(inds_zero)
         effective_area = np.pi * rendering_radius ** 2 / npixels
-        mass_in_area = self._mass_in_area(pdf, z, effective_area)
+        mass_in_area = max(0., self._mass_in_area(pdf, z, effective_area))
+        # density fluctuations can make the convergence negative; there is nothing to render there
+        pdf[pdf < 0] = 0.
         return pdf.reshape(shape0), mass_in_area, halo_indexes
 
     def _mass_in_area(self, kappa_pdf, z, area):
-- 
2.43.0


From 43ac7fbb925b0a031d0f2fcb14e716f98472787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 52/58] fix: infall redshifts stay inside their range for every
 draw and mass

---
 pyHalo/Halos/accretion.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/pyHalo/Halos/accretion.py b/pyHalo/Halos/accretion.py
index 106b623..bce2fc0 100644
--- a/pyHalo/Halos/accretion.py
+++ b/pyHalo/Halos/accretion.py
@@ -3,6 +3,20 @@ from scipy.interpolate import interp1d
 from scipy.stats import truncnorm
 from scipy.special import ndtr, ndtri
 
+def _draw_delta_z(mu, sig, bounds=(0.0, 15.0)):
+    """
+    Draw the redshift elapsed between infall and the lens redshift from a Gaussian truncated at bounds
+    :param mu: mean of the Gaussian
+    :param sig: standard deviation of the Gaussian
+    :param bounds: the smallest and largest redshift interval
+    :return: a redshift interval that lies inside bounds
+    """
+    sign = -1 if mu < bounds[0] else 1  # the upper tail is the mirror image of the lower tail, where ndtr is accurate
+    u_min, u_max = sorted(ndtr(sign * (b - mu) / sig) for b in bounds)
+    u = numpy.random.uniform(u_min, u_max)
+    if u_max == 0:  # the mean lies so far outside the bounds that the draw ends up at the closest one
+        return float(numpy.clip(mu, *bounds))
+    return float(numpy.clip(mu + sign * sig * ndtri(u), *bounds))
 
 class InfallDistributionGalacticus2024(object):
     """ACCRETION REDSHIFT PDF FROM GALACTICUS USING THE VERSION OF GALACTICUS AS OF FEB 2024 AND SELECTING ON
@@ -48,11 +62,7 @@ class InfallDistributionHybrid(object):
         mass_ratio = self._mass_ratio_in_bounds(m_sub / self._m_host)
         mu = self.z_inf_to_z_host_mean(mass_ratio)
         sig = self.z_inf_to_z_host_std(mass_ratio)
-        bounds = [0.0, 15.0]
-        _a, _b = (bounds[0] - mu) / sig, (bounds[1] - mu) / sig
-        _u = numpy.random.uniform(ndtr(_a), ndtr(_b))
-        z = float(mu + sig * ndtri(_u))
-        return self._z_lens + z
+        return self._z_lens + _draw_delta_z(mu, sig)
 
     @staticmethod
     def _mass_ratio_in_bounds(massRatio):
@@ -113,11 +123,7 @@ class InfallDistributionDirect(object):
         mass_ratio = self._mass_ratio_in_bounds(m_sub / self._m_host)
         mu = self.z_inf_to_z_host_mean(mass_ratio)
         sig = self.z_inf_to_z_host_std(mass_ratio)
-        bounds = [0.0, 15.0]
-        _a, _b = (bounds[0] - mu) / sig, (bounds[1] - mu) / sig
-        _u = numpy.random.uniform(ndtr(_a), ndtr(_b))
-        z = float(mu + sig * ndtri(_u))
-        return self._z_lens + z
+        return self._z_lens + _draw_delta_z(mu, sig)
 
     @staticmethod
     def _mass_ratio_in_bounds(massRatio):
@@ -189,11 +195,7 @@ class InfallDistributionClusterDirect(object):
         mass_ratio = self._mass_ratio_in_bounds(m_sub / self._m_host)
         mu = self.z_inf_to_z_host_mean(mass_ratio)
         sig = self.z_inf_to_z_host_std(mass_ratio)
-        bounds = [0.0, 15.0]
-        _a, _b = (bounds[0] - mu) / sig, (bounds[1] - mu) / sig
-        _u = numpy.random.uniform(ndtr(_a), ndtr(_b))
-        z = float(mu + sig * ndtri(_u))
-        return self._z_lens + z
+        return self._z_lens + _draw_delta_z(mu, sig)
 
     @staticmethod
     def _mass_ratio_in_bounds(massRatio):
@@ -302,11 +304,7 @@ class InfallRedshiftDistributionBase(object):
         mass_ratio = self._mass_ratio_in_bounds(m_sub / self._m_host)
         mu = self.z_inf_to_z_host_mean(mass_ratio)
         sig = self.z_inf_to_z_host_std(mass_ratio)
-        bounds = [0.0, 15.0]
-        _a, _b = (bounds[0] - mu) / sig, (bounds[1] - mu) / sig
-        _u = numpy.random.uniform(ndtr(_a), ndtr(_b))
-        z = float(mu + sig * ndtri(_u))
-        return self._z_lens + z
+        return self._z_lens + _draw_delta_z(mu, sig)
 
     @staticmethod
     def _mass_ratio_in_bounds(massRatio):
-- 
2.43.0


From 93a12e93f110b2bdcba20b40fd36f702264813ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 53/58] fix: subhalos close to the host centre keep a
 truncation radius larger than zero

---
 pyHalo/Halos/tidal_truncation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index d2f0942..acbe010 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -115,7 +115,7 @@ class TruncationRoche(object):
         m_units_7 = subhalo_mass / 10 ** 7
         radius_units_50 = subhalo_r3d / 50
         rtrunc_kpc = self._norm * m_units_7 ** self._m_power * radius_units_50 ** self._r3d_power
-        return np.round(rtrunc_kpc, 3)
+        return rtrunc_kpc
 
 class TruncateMeanDensity(object):
     name = "MeanDensity"
-- 
2.43.0


From e57c479f5ffc3ba0c24964dec499cbff8507847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 54/58] fix: subhalos keep a bound mass larger than zero for
 every draw

---
 pyHalo/Halos/batch_halo_util.py                       |  5 +++--
 .../Halos/galacticus_truncation/interp_mass_loss.py   | 11 +++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index 49f9891..411f8b7 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -26,6 +26,7 @@ not reproducible draw-for-draw against it for a fixed numpy seed.
 """
 import numpy as np
 from scipy.stats import johnsonsu, truncnorm
+from pyHalo.Halos.galacticus_truncation.interp_mass_loss import _log10_min_bound_fraction
 
 
 # ----------------------------------------------------------------------------
@@ -264,7 +265,7 @@ def galacticus_mass_loss_vectorized(mass_loss_interp, log10c, t_or_dz, chost):
     :param t_or_dz: array of times since infall [Gyr] (InterpGalacticus) or
         elapsed redshift since infall (InterpGalacticusZinfall)
     :param chost: host concentration (scalar)
-    :return: array of log10(m_bound / m_infall), clipped at 0
+    :return: array of log10(m_bound / m_infall), clipped at 0 and at the smallest allowed bound fraction
     """
     cls = type(mass_loss_interp).__name__
     if cls == 'InterpGalacticus':
@@ -283,7 +284,7 @@ def galacticus_mass_loss_vectorized(mass_loss_interp, log10c, t_or_dz, chost):
     a = mass_loss_interp._a_interp(pts)
     b = mass_loss_interp._b_interp(pts)
     out = johnsonsu.rvs(a, b)
-    return np.minimum(out, 0.0)
+    return np.clip(out, _log10_min_bound_fraction, 0.0)
 
 
 def compute_r_te_and_f_t_vectorized(m_bound, m_infall, r200_infall, c_infall):
diff --git a/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py b/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
index 630be44..44dacfe 100644
--- a/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
+++ b/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
@@ -2,6 +2,9 @@ import numpy as np
 from scipy.interpolate import RegularGridInterpolator
 from scipy.stats import johnsonsu
 
+# the distributions of the bound mass have no lower limit, but a subhalo needs a bound mass larger than zero
+_log10_min_bound_fraction = -10.0
+
 class InterpGalacticusKeeley24(object):
     """
     This class interpolates output from the semi-analytic model galacticus to predict the bound mass of a subhalo
@@ -36,7 +39,7 @@ class InterpGalacticusKeeley24(object):
         scatter_dex = self.evaluate_scatter_dex(log10_concentration_infall, time_since_infall, host_concentration)
         scatter_dex = max(scatter_dex, 0.001)
         output = np.random.normal(mean, scatter_dex)
-        return min(output, 0.0)
+        return min(max(output, _log10_min_bound_fraction), 0.0)
 
     def evaluate_mean_mass_loss(self, log10_concentration_infall, time_since_infall, host_concentration):
         """
@@ -108,7 +111,7 @@ class InterpGalacticusZinfall(object):
         p = (delta_z_infall, log10_concentration_infall, chost)
         a, b = self._a_interp(p), self._b_interp(p)
         output = float(np.sinh((np.random.normal() - a) / b))
-        return min(output, 0.0)
+        return min(max(output, _log10_min_bound_fraction), 0.0)
 
 class InterpGalacticus(object):
     """
@@ -147,7 +150,7 @@ class InterpGalacticus(object):
         p = (time_since_infall, log10_concentration_infall, chost)
         a, b = self._a_interp(p), self._b_interp(p)
         output = float(np.sinh((np.random.normal() - a) / b))
-        return min(output, 0.0)
+        return min(max(output, _log10_min_bound_fraction), 0.0)
 
 class InterpGalacticusMW(object):
     """
@@ -195,7 +198,7 @@ class InterpGalacticusMW(object):
         p = (time_since_infall, log10_concentration_infall, chost)
         a, b = self._a_interp(p), self._b_interp(p)
         output = float(np.sinh((np.random.normal() - a) / b))
-        return min(output, 0.0)
+        return min(max(output, _log10_min_bound_fraction), 0.0)
 #
 # class InterpGalacticusZinfallZhost03(object):
 #     """
-- 
2.43.0


From 682c8019b27002621a2fadbaa4f4666ce51500a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 55/58] fix: an interrupted rescaling of a halo leaves it
 either rescaled or not

---
 pyHalo/Halos/halo_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index d30487d..c62b60d 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -93,11 +93,11 @@ class Halo(ABC):
         """
         if self._rescaled_once and not force:
             return
-        if log:
-            self._rescaled_once = True
-        self._rescale_norm *= factor
         for name in self._normalization_dependent_cache:
             self.__dict__.pop(name, None)
+        # both in a single step, so that a call that is interrupted can be repeated
+        self.__dict__.update(_rescale_norm=self._rescale_norm * factor,
+                             _rescaled_once=self._rescaled_once or log)
 
     @property
     @abstractmethod
-- 
2.43.0


From 146d8cc051e68cf7cab7b9a8d5a464f9f019c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:46 +0000
Subject: [PATCH 56/58] fix: JointLOSWithEmulator renders the line-of-sight
 halos in the requested cone opening angle

---
 pyHalo/PresetModels/external.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/PresetModels/external.py b/pyHalo/PresetModels/external.py
index b890f98..7923311 100644
--- a/pyHalo/PresetModels/external.py
+++ b/pyHalo/PresetModels/external.py
@@ -242,6 +242,7 @@ def JointLOSWithEmulator(z_lens,
     emulator_subhalos = DMSubhalosFromEmulator(z_lens, z_source, emulator_data_function, cone_opening_angle_arcsec)
     from pyHalo.preset_models import preset_model_from_name
     preset_model_function = preset_model_from_name(preset_model_name_LOS)
-    los = preset_model_function(z_lens, z_source, **kwargs_preset_model)
+    los = preset_model_function(z_lens, z_source, cone_opening_angle_arcsec=cone_opening_angle_arcsec,
+                                **kwargs_preset_model)
     return emulator_subhalos.join(los)
 
-- 
2.43.0


From 6a9e644ed07f78205649cf33ba0fac4ab85d394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 57/58] fix: delta_power_law_index tilts the subhalo mass
 function of the CDM preset as documented

---
 pyHalo/PresetModels/cdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index 0822572..d94c011 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -144,7 +144,7 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
                             'm_pivot': 10 ** 8,
                             'power_law_index': shmf_log_slope,
                             'log_m_host': log_m_host,
-                            'delta_power_law_index': 0.0,
+                            'delta_power_law_index': delta_power_law_index,
                             'host_scaling_factor': host_scaling_factor,
                             'redshift_scaling_factor': redshift_scaling_factor,
                             'draw_poisson': draw_poisson}
-- 
2.43.0


From d6c360fd1672d3d309abe5c61f497e4d495bf6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:27 +0000
Subject: [PATCH 58/58] fix: batch_nfw_concentration returns the median
 relation of every model when scatter is off

---
 pyHalo/Halos/batch_halo_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index 411f8b7..20f769d 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -134,7 +134,8 @@ def batch_nfw_concentration(c_class, m, z, force_no_scatter=False):
         return c_wdm
     if name == 'CONSTANT':
         return np.full(len(m), c_class.nfw_concentration())
-    return np.array([c_class.nfw_concentration(float(mi), z) for mi in m])
+    kwargs = {'force_no_scatter': True} if force_no_scatter else {}
+    return np.array([c_class.nfw_concentration(float(mi), z, **kwargs) for mi in m])
 
 
 def precompute_concentrations(halos):
-- 
2.43.0

