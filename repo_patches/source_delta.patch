From f6f9bb2d12a58c9fa1e57a9cf593fb6d824fba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:46 +0000
Subject: [PATCH 01/74] fix: safe_inverse of arrays truncated integers and
 mapped values below 1e-8 to inf

---
 src/dispersion/spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index e4aab07..ac5bb7e 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -23,9 +23,9 @@ def safe_inverse_array(values):
     takes the inverse of an array while converting values of 0 to inf
     and values of inf to 0
     '''
-    inverse = np.array(values)
-    zero_ind = np.isclose(values,0.0)
-    inf_ind = np.isclose(values,np.inf)
+    inverse = np.array(values, dtype=float)
+    zero_ind = np.equal(values, 0.0)
+    inf_ind = np.equal(values, np.inf)
     safe_inv_ind = ~ (zero_ind | inf_ind)
     inverse[zero_ind] = np.inf
     inverse[inf_ind] = 0.0
-- 
2.43.0


From 83cfb7e5ad7a3a5ab93c62c974946a08af8e4a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:46 +0000
Subject: [PATCH 02/74] fix: conversion to wavenumber used 1e-2 instead of 1e2
 for metre to centimetre

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index ac5bb7e..6241f60 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -142,7 +142,7 @@ def to_wavenumber(unit, values):
     if not unit == '1/cm':
         raise NotImplementedError("support for wavenumber units" +
                                   " other than 1/cm not implemented")
-    inverse = safe_inverse(values*1e-2)
+    inverse = safe_inverse(values*1e2)
     return 2*np.pi*inverse
 
 class Spectrum(object):
-- 
2.43.0


From 2fca95d42c0790604658badebf3e5c489ef60953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:46 +0000
Subject: [PATCH 03/74] fix: conversion to centimetres rounded wavelengths to
 100 nm

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 6241f60..f9b155d 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -104,7 +104,7 @@ def to_wavelength(unit, values):
     if unit == 'm':
         converted_values = values
     elif unit == 'cm':
-        converted_values = np.round(values*1e2, decimals=5)
+        converted_values = np.round(values*1e2, decimals=13)
     elif unit == 'nm':
         converted_values = np.round(values*1e9, decimals=12)
     elif unit == 'um':
-- 
2.43.0


From cbd607e6fe39c1b1b0959a4f2c12e98eb5ea1065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:46 +0000
Subject: [PATCH 04/74] fix: convert_to rejected unit names with upper case
 letters (eV, Hz) accepted by the constructor

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index f9b155d..044da57 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -302,7 +302,7 @@ class Spectrum(object):
         if spectrum_type not in Spectrum.SPECTRUM_TYPES:
             raise ValueError("invalid spectrum type {}".format(spectrum_type))
 
-        unit = Spectrum.standardise_unit(spectrum_type, unit)
+        unit = Spectrum.standardise_unit(spectrum_type, unit.lower())
         values = self.standard_rep
 
         convert_methods = {'frequency': to_frequency,
-- 
2.43.0


From e460e126fec15a14ea2ddd7e3958a63571fadf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:46 +0000
Subject: [PATCH 05/74] fix: missing display name for centimetre raised
 KeyError in range errors and axis labels

---
 src/dispersion/spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 044da57..05a9108 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -168,6 +168,7 @@ class Spectrum(object):
                   'a': {'a', 'angstrom'}}
 
     DISPLAY_NAMES = {'m': 'm',
+                     'cm': 'cm',
                      'um': u'μm',
                      'nm': 'nm',
                      'hz': 'Hz',
-- 
2.43.0


From 904cd8c1f4f7821aacf9cb9601db7abf42480511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:46 +0000
Subject: [PATCH 06/74] fix: converting a spectrum to its own type and unit
 changed the values by rounding

---
 src/dispersion/spectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 05a9108..ceda1e6 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -312,7 +312,10 @@ class Spectrum(object):
                            'wavenumber': to_wavenumber,
                            'wavelength': to_wavelength}
 
-        converted_values = convert_methods[spectrum_type](unit, values)
+        if spectrum_type == self.spectrum_type and unit == self.unit:
+            converted_values = self.values
+        else:
+            converted_values = convert_methods[spectrum_type](unit, values)
         if in_place:
             self.values = converted_values
             self.spectrum_type = spectrum_type
-- 
2.43.0


From 2a2ae8872f34586f2cdd2304f5ac203c16e7d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:46 +0000
Subject: [PATCH 07/74] fix: integer spectrum arrays truncated values written
 into them (extrapolation ranges)

---
 src/dispersion/spectrum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index ceda1e6..88099d1 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -190,6 +190,9 @@ class Spectrum(object):
         if not ( isinstance(values, np.ndarray) or
                  isinstance(values, float)):
             raise ValueError("values must be array like or float")
+        if (isinstance(values, np.ndarray) and
+                np.issubdtype(values.dtype, np.integer)):
+            values = values.astype(float)
 
         self.values = values
         self.standard_rep = None  # values in standardised representation
-- 
2.43.0


From bf16078ecce976180d4195a1d410068fb3891beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:13 +0000
Subject: [PATCH 08/74] fix: Spectrum shared its arrays with callers, so
 editing a converted result changed the spectrum

---
 src/dispersion/spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 88099d1..779fd33 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -102,7 +102,7 @@ def wavelength_to_standard(unit, values):
 def to_wavelength(unit, values):
     """converts values from standard to wavelength representation"""
     if unit == 'm':
-        converted_values = values
+        converted_values = values*1.0
     elif unit == 'cm':
         converted_values = np.round(values*1e2, decimals=13)
     elif unit == 'nm':
@@ -185,7 +185,7 @@ class Spectrum(object):
                              "not valid, valid types are " +
                              "{}".format(spectral_types))
         self.unit = self.standardise_unit(self.spectrum_type, unit.lower())
-        if isinstance(values, (list, tuple)):
+        if isinstance(values, (list, tuple, np.ndarray)):
             values = np.array(values)
         if not ( isinstance(values, np.ndarray) or
                  isinstance(values, float)):
@@ -316,7 +316,7 @@ class Spectrum(object):
                            'wavelength': to_wavelength}
 
         if spectrum_type == self.spectrum_type and unit == self.unit:
-            converted_values = self.values
+            converted_values = self.values*1.0
         else:
             converted_values = convert_methods[spectrum_type](unit, values)
         if in_place:
-- 
2.43.0


From 4e60a946ddf300a6ea544f0d5a8c7e479dda2aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:13 +0000
Subject: [PATCH 09/74] fix: Retro model solved (n^2-1)/(n^2+2n) instead of
 (n^2-1)/(n^2+2)

---
 src/dispersion/spectral_data.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 481039f..76529f7 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -531,10 +531,7 @@ class Retro(Model):
         rhs += self.model_parameters[1]*wvlsq/(wvlsq-self.model_parameters[2])
         rhs += self.model_parameters[3]*wvlsq
 
-        tmp_p = -2*rhs/(1-rhs)
-        tmp_q = -1/(1-rhs)
-
-        ref_index = -0.5*tmp_p + np.sqrt(np.power(0.5*tmp_p, 2) - tmp_q)
+        ref_index = np.sqrt((1.0+2.0*rhs)/(1.0-rhs))
         return ref_index
 
 class Exotic(Model):
-- 
2.43.0


From 5ed3ca173a61357fc847bbdad5b40cec9e440dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:13 +0000
Subject: [PATCH 10/74] fix: Exotic model had a spurious wavelength squared in
 the numerator of its pole

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 76529f7..88961ef 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -556,7 +556,7 @@ class Exotic(Model):
         rhs = self.model_parameters[0]*ones
         wvlsq = np.power(wavelengths, 2)
 
-        rhs += self.model_parameters[1]*wvlsq/(wvlsq - self.model_parameters[2])
+        rhs += self.model_parameters[1]/(wvlsq - self.model_parameters[2])
         rhs += (self.model_parameters[3]*(wavelengths -self.model_parameters[4])/
                 (np.power(wavelengths - self.model_parameters[4], 2) +
                  self.model_parameters[5]))
-- 
2.43.0


From f729b6033fa3adcd1566bfe8062fc8cc16ddd2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:13 +0000
Subject: [PATCH 11/74] fix: Tauc-Lorentz model could not be evaluated for a
 scalar spectrum

---
 src/dispersion/spectral_data.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 88961ef..3cd2266 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -640,12 +640,10 @@ class TaucLorentz(Model):
         return eps
 
     def _calc_eps_imag(self, ones, energies, A, E0, C, Eg):
-        eps_imag = ones
-        E = energies[energies>=Eg]
-        eps_imag[energies>=Eg] = ( (1./E) *A*E0*C*(E-Eg)**2 /
-                                   ((E**2-E0**2)**2+C**2*E**2))
-        eps_imag[energies<Eg] = 0.0
-        return eps_imag
+        E = energies
+        eps_imag = ( (1./E) *A*E0*C*(E-Eg)**2 /
+                     ((E**2-E0**2)**2+C**2*E**2))
+        return np.where(E >= Eg, eps_imag, 0.0*ones)
 
     def _calc_eps_real(self, energies, A, E0, C, Eg, eps_inf):
         E = energies
-- 
2.43.0


From c1aebe3cbf4c12d0f6764b09e1b3791fd5bc9a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:43 +0000
Subject: [PATCH 12/74] fix: tabulated_n_alpha input always failed because the
 shape of tabulated_nk was checked

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7cfe8ed..1fff7ea 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -217,7 +217,7 @@ class Material():
         if inputs['tabulated_nk'] is not None:
             _check_table_shape(inputs['tabulated_nk'], 3, 'nk')
         if inputs['tabulated_n_alpha'] is not None:
-            _check_table_shape(inputs['tabulated_nk'], 3, 'n_alpha')
+            _check_table_shape(inputs['tabulated_n_alpha'], 3, 'n_alpha')
         if inputs['tabulated_n'] is not None:
             _check_table_shape(inputs['tabulated_n'], 2, 'n')
         if inputs['tabulated_eps'] is not None:
-- 
2.43.0


From 41996d88de27834f406375baed881e7b815751a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:43 +0000
Subject: [PATCH 13/74] fix: interp_order was ignored when a Material was built
 from tabulated data

---
 src/dispersion/material.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 1fff7ea..0da8f9f 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -516,7 +516,8 @@ class Material():
                             spectrum_type=spec_type, unit=unit)
 
         return Interpolation(data, spectrum_type=spec_type,
-                             unit=unit)
+                             unit=unit,
+                             interp_order=self.options['interp_oder'])
 
     def _process_formula_data(self, data_dict):
         '''prepare dictionary of data for processing.
-- 
2.43.0


From 836986e01d80ee8fa07450b381dc58135e8e235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:43 +0000
Subject: [PATCH 14/74] fix: maximum valid range was wrong for complex models
 and reversed for energy-like spectra

---
 src/dispersion/material.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 0da8f9f..78e21b0 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -689,12 +689,12 @@ class Material():
             lower = np.max([real_lower, imag_lower])
             upper = np.min([real_upper, imag_upper])
         else:
-            lower = np.min(self.data['complex'].valid_range.values)
-            upper = np.max(self.data['complex'].valid_range.values)
+            lower = np.min(self.data['complex'].valid_range.standard_rep)
+            upper = np.max(self.data['complex'].valid_range.standard_rep)
         max_range = np.array([lower, upper])
         spec = Spectrum(max_range)
-        return spec.convert_to(self.defaults['spectrum_type'],
-                               self.defaults['unit'])
+        return np.sort(spec.convert_to(self.defaults['spectrum_type'],
+                                       self.defaults['unit']))
 
     @staticmethod
     def utf8_to_ascii(string):
-- 
2.43.0


From 1bb013e508d6a77527a62cc6d0cc32cf4749c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:16 +0000
Subject: [PATCH 15/74] fix: extrapolation changed values inside the known
 range and converted the caller's spectrum

---
 src/dispersion/spectral_data.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 3cd2266..07d5182 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -139,13 +139,12 @@ class Extrapolation(SpectralData):
         that gives the lower and upper bound for an extrapolation
         """
         base_spectrum = self.base_spectral_data.valid_range
-        extended_spectrum.convert_to(spectrum_type= base_spectrum.spectrum_type,
-                                     unit= base_spectrum.unit,
-                                     in_place= True)
+        extrap_values = extended_spectrum.convert_to(
+            spectrum_type= base_spectrum.spectrum_type,
+            unit= base_spectrum.unit)
         new_range = np.array(base_spectrum.values)
-        if isinstance(extended_spectrum.values, (list, tuple, np.ndarray)):
+        if isinstance(extrap_values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
-            extrap_values = extended_spectrum.values
             if extrap_values.size > 2:
                 raise ValueError("extrapolation spectrum may contain at most" +
                                  "2 values not {}".format(extrap_values.size))
@@ -153,8 +152,7 @@ class Extrapolation(SpectralData):
                 new_range = self.validate_extrap_val(extrap_val, new_range)
         else:
             # upper or lower
-            extrap_val = extended_spectrum.values
-            new_range = self.validate_extrap_val(extrap_val, new_range)
+            new_range = self.validate_extrap_val(extrap_values, new_range)
 
         return Spectrum(new_range,
                         spectrum_type= base_spectrum.spectrum_type,
@@ -187,13 +185,18 @@ class Extrapolation(SpectralData):
 
     def evaluate(self, spectrum):
         """returns the value of the spectral data for the fiven spectrum"""
-        try:
-            self.base_spectral_data.valid_range.contains(spectrum)
-            return self.base_spectral_data.evaluate(spectrum)
-        except ValueError as e:
-            spectrum.convert_to(self.spectrum_type, self.unit, in_place=True)
-            self.valid_range.contains(spectrum)
-            return splev(spectrum.values,self.extrapolation)
+        self.valid_range.contains(spectrum)
+        values = np.asarray(spectrum.convert_to(self.spectrum_type, self.unit))
+        base_range = self.base_spectral_data.valid_range.values
+        inside = np.logical_and(values >= np.min(base_range),
+                                values <= np.max(base_range))
+        evaluation = np.array(splev(values, self.extrapolation))
+        if np.any(inside):
+            base_spectrum = Spectrum(values[inside],
+                                     spectrum_type=self.spectrum_type,
+                                     unit=self.unit)
+            evaluation[inside] = self.base_spectral_data.evaluate(base_spectrum)
+        return evaluation
 
 
 class Interpolation(SpectralData):
-- 
2.43.0


From 09c691628d1752f2cb725fb2343eef3bcb4331bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:16 +0000
Subject: [PATCH 16/74] fix: creating an effective medium converted the
 caller's spectrum to metres

---
 src/dispersion/material.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 78e21b0..7b31578 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -940,8 +940,8 @@ class Simple(EffectiveMedium):
         eps_base = self.mat1.get_permittivity(self.spectrum)
         eps_incl = self.mat2.get_permittivity(self.spectrum)
         eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
@@ -958,8 +958,8 @@ class MaxwellGarnett(EffectiveMedium):
         if np.any(abs(factor_down)) < small_number_cutoff:
             raise ValueError('effective medium is approximately singular')
         eps_eff = eps_base*factor_up/factor_down
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
@@ -978,8 +978,8 @@ class Bruggeman(EffectiveMedium):
         eps_eff = np.zeros(eps_b.shape, dtype=np.cdouble)
         eps_eff[indices2] = solution2[indices2]
         eps_eff[indices1] = solution1[indices1]
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
-- 
2.43.0


From 274d6abfec64d2880136a5de7635a8363eadd5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:16 +0000
Subject: [PATCH 17/74] fix: Bruggeman gave zero or the unphysical root when
 rounding left no root with Im >= 0

---
 src/dispersion/material.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7b31578..fd4908d 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -973,11 +973,8 @@ class Bruggeman(EffectiveMedium):
         solution2 = self._get_bruggeman_solution2(eps_b, eps_a)
         self.sol1 = solution1
         self.sol2 = solution2
-        indices1 = np.imag(solution1) >= 0.0
-        indices2 = np.imag(solution2) >= 0.0
-        eps_eff = np.zeros(eps_b.shape, dtype=np.cdouble)
-        eps_eff[indices2] = solution2[indices2]
-        eps_eff[indices1] = solution1[indices1]
+        eps_eff = np.where(np.imag(solution1) >= np.imag(solution2),
+                           solution1, solution2)
         wavelengths = self.spectrum.convert_to("wavelength", 'm')
         table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
-- 
2.43.0


From 78bfd8b178c36c54c192d81a656cd37832909131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:16 +0000
Subject: [PATCH 18/74] fix: Maxwell-Garnett singularity test compared a bool
 with the cutoff

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index fd4908d..fb834ae 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -955,7 +955,7 @@ class MaxwellGarnett(EffectiveMedium):
         eps_incl = self.mat2.get_permittivity(self.spectrum)
         factor_up = 2*(1-self.frac)*eps_base+(1+2*self.frac)*eps_incl
         factor_down = (2+self.frac)*eps_base+(1-self.frac)*eps_incl
-        if np.any(abs(factor_down)) < small_number_cutoff:
+        if np.any(abs(factor_down) < small_number_cutoff):
             raise ValueError('effective medium is approximately singular')
         eps_eff = eps_base*factor_up/factor_down
         wavelengths = self.spectrum.convert_to("wavelength", 'm')
-- 
2.43.0


From 5775d8b681d525031f1b2463f98a0a43584fd2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:16 +0000
Subject: [PATCH 19/74] fix: effective media had no meta data and so could not
 be compared or written to file

---
 src/dispersion/material.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index fb834ae..b31e074 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -910,6 +910,9 @@ class Material():
 class EffectiveMedium(Material):
 
     def __init__(self, spectrum, material1, material2, filling_fraction):
+        self.meta_data = {'Reference': "", 'Comment': "", 'Name': "",
+                          'FullName': "", 'Author': "", 'Alias': "",
+                          'MetaComment': "", 'Specification': {}}
         self.data = {'name': "",
                      'real': None,
                      'imag': None,
-- 
2.43.0


From 3071640ab1b58ca82f1f6dc546fe25902d53d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 20/74] fix: tables not given in increasing order lost rows
 when written to file

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 07d5182..520ca26 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -204,7 +204,7 @@ class Interpolation(SpectralData):
 
     def __init__(self, data, spectrum_type='wavelength',
                  unit='m', interp_order=1):
-        self.data = data
+        self.data = data[np.argsort(data[:, 0], kind='stable')]
         self.interp_order = interp_order
         min_range = np.min(data[:, 0])
         max_range = np.max(data[:, 0])
-- 
2.43.0


From 863b23303a354dc5b262f1967572b1dc023551a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 21/74] fix: writing tables lost digits, and tables over 1000
 elements were written with an ellipsis

---
 src/dispersion/io.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f9017bc..416bb69 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -62,11 +62,9 @@ def _numeric_to_string_table(table):
     """
     returns a string representation of a numpy array
     """
-    string_array = np.array2string(table)
-    no_brackets = re.sub(r'[\[\]]', '', string_array)
-    no_indent = re.sub(r'\n ', r"\n", no_brackets)
-    no_indent = no_indent.rstrip().lstrip()
-    return no_indent
+    rows = np.atleast_2d(np.asarray(table, dtype=float))
+    return "\n".join([" ".join([repr(float(value)) for value in row])
+                      for row in rows])
 
 def _str_table_to_numeric(table):
     '''
-- 
2.43.0


From c5c78b10030e5bfc6a8c98c77c648cd2b8abf85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 22/74] fix: text files were written with 8 decimals,
 destroying small values such as wavelengths in metres

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 416bb69..a4acf3b 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -657,7 +657,7 @@ class Writer():
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
                    header=header,
-                   fmt="%.8f")
+                   fmt="%.17g")
 
 
     def _write_yaml_file(self):
-- 
2.43.0


From edb8b5b8fd9dc277a98ef707e906bf8822c5920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 23/74] fix: writing .nk files failed, and their header would
 not have been readable

---
 src/dispersion/io.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index a4acf3b..07fb1ff 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -212,7 +212,8 @@ def print_yaml_string(dict_like):
     else:
         print(yaml.dump(dict_like))
 
-def prepend_text_to_file(file_path, text, extra_line=False):
+def prepend_text_to_file(file_path, text, extra_line=False,
+                         comment_char="#"):
     """
     read information from a file and rewrite with text prepended
     """
@@ -221,8 +222,8 @@ def prepend_text_to_file(file_path, text, extra_line=False):
 
     with open(file_path, 'w', encoding='utf8') as fpt:
         text = text.rstrip('\n\r')
-        text = text.replace("\n", "\n#")
-        text = "#" + text
+        text = text.replace("\n", "\n" + comment_char)
+        text = comment_char + text
         text += "\n"
         if extra_line:
             text += "\n"
@@ -605,7 +606,9 @@ class Writer():
         if self.extension in txt_types:
             self._write_text_file()
             if not meta_comment == "":
-                prepend_text_to_file(self.file_path, meta_comment)
+                comment_char = ";" if self.extension == '.nk' else "#"
+                prepend_text_to_file(self.file_path, meta_comment,
+                                     comment_char=comment_char)
         elif self.extension == '.yml':
             self._write_yaml_file()
             if not meta_comment == "":
@@ -648,15 +651,20 @@ class Writer():
         #                               "supported for tabulated_nk and"+
         #                               "tabulted_n data.")
 
+        comments = "# "
         if self.extension == '.txt':
             delimiter = "\t"
         elif self.extension == '.csv':
             delimiter = ","
+        elif self.extension == '.nk':
+            delimiter = "\t"
+            comments = "; "
         data = multi_key(data_dict, {'data', 'Data'})
         data = _str_table_to_numeric(data)
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
                    header=header,
+                   comments=comments,
                    fmt="%.17g")
 
 
-- 
2.43.0


From 01d16aabc10a8631ba84d9ade693a1573a4c7137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 24/74] fix: materials defined by a complex model could not be
 written to file

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index b31e074..a5429df 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -857,7 +857,7 @@ class Material():
         if self.data['complex'] is None:
             data_parts = ['real', 'imag']
         else:
-            data_parts = 'complex'
+            data_parts = ['complex']
 
 
         for data_part in data_parts:
-- 
2.43.0


From 825fb7c4aa5963e685380929068cfbfaa185528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 25/74] fix: tabulated permittivity was written with data types
 that could not be read back

---
 src/dispersion/material.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index a5429df..7535abb 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -489,6 +489,12 @@ class Material():
             self.data['name'] = 'eps'
             self.data['real'] = self._spec_data_from_table(table[:, [0, 1]])
             self.data['imag'] = self._spec_data_from_table(table[:, [0, 2]])
+        elif identifier == 'eps_r':
+            self.data['name'] = 'eps'
+            self.data['real'] = self._spec_data_from_table(table)
+        elif identifier == 'eps_i':
+            self.data['name'] = 'eps'
+            self.data['imag'] = self._spec_data_from_table(table)
 
 
     def _spec_data_from_table(self, data):
@@ -830,7 +836,7 @@ class Material():
             if data_part == 'real':
                 dtype += " eps_r"
             elif data_part == 'imag':
-                dtype += ' eps_k'
+                dtype += ' eps_i'
             elif data_part == 'complex':
                 dtype += ' eps'
         else:
@@ -875,10 +881,10 @@ class Material():
     def collapse_datasets(self, datasets):
         n_collapsable = 0
         for dataset in datasets:
-            if dataset['DataType'] == 'tabulated n':
+            if dataset['DataType'] in {'tabulated n', 'tabulated eps_r'}:
                 n_data = _str_table_to_numeric(dataset['Data'])
                 n_collapsable += 1
-            if dataset['DataType'] == 'tabulated k':
+            if dataset['DataType'] in {'tabulated k', 'tabulated eps_i'}:
                 k_data = _str_table_to_numeric(dataset['Data'])
                 n_collapsable += 1
 
@@ -901,7 +907,7 @@ class Material():
         new_dataset = {}
         new_dataset['Unit'] = datasets[0]['Unit']
         new_dataset['SpectrumType'] = datasets[0]['SpectrumType']
-        new_dataset['DataType'] = 'tabulated nk'
+        new_dataset['DataType'] = 'tabulated ' + self.data['name']
         k_data = k_data[:, 1].reshape(k_data.shape[0], 1)
         new_data = np.concatenate([n_data, k_data], axis=1)
         new_dataset['Data'] = _numeric_to_string_table(new_data)
-- 
2.43.0


From f3976505f4a0612bbaa53958f2b54a0dc474cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 26/74] fix: writing n and k tables of different length raised
 an error

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7535abb..c084028 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -892,7 +892,7 @@ class Material():
             return datasets
 
         collapse = True
-        if not np.all(n_data[:, 0] == k_data[:, 0]):
+        if not np.array_equal(n_data[:, 0], k_data[:, 0]):
             collapse = False
 
         if datasets[0]['Unit'] != datasets[1]['Unit']:
-- 
2.43.0


From 0890c8d350df843a12d31f80b1f76a0c9e61aeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 27/74] fix: reading a YAML file dropped the last character of
 the meta comment

---
 src/dispersion/io.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 07fb1ff..7beb487 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -428,7 +428,6 @@ class Reader():
         file_dict = dict(self.default_file_dict)
         file_dict = self._process_mat_dict(file_dict, yaml_data)
         mcomment = "\n".join(self._read_text_comment())
-        mcomment = mcomment[:-1]
         file_dict['MetaData']['MetaComment'] = mcomment
         return file_dict
 
-- 
2.43.0


From c7579d2b8270fce3281f609edd13460f9e8b6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 28/74] fix: text files with a single row of data could not be
 read

---
 src/dispersion/io.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 7beb487..039c59f 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -325,24 +325,25 @@ class Reader():
         try:
             if ext == '.txt':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8')
+                    data = np.loadtxt(self.file_path, encoding='utf-8',
+                                      ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt)
+                        data = np.loadtxt(fpt, ndmin=2)
             elif ext == '.csv':
                 try:
                     data = np.loadtxt(self.file_path, encoding='utf-8',
-                                      delimiter=',')
+                                      delimiter=',', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt,delimiter=',')
+                        data = np.loadtxt(fpt,delimiter=',', ndmin=2)
             elif ext == '.nk':
                 try:
                     data = np.loadtxt(self.file_path, encoding='utf-8',
-                                      comments=';')
+                                      comments=';', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt, comments=';')
+                        data = np.loadtxt(fpt, comments=';', ndmin=2)
         except IOError as exc:
             raise exc
         data_dict = self._create_default_data_dict()
-- 
2.43.0


From fe5a21b44b8dfad0719d937501a196b099c99db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 29/74] fix: YAML files with lower case keys raised KeyError

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 039c59f..5123c73 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -449,8 +449,8 @@ class Reader():
             the updated file_dict
         """
         for kwd in yaml_dict:
-            kwd = kwd.upper()
             arg = yaml_dict[kwd]
+            kwd = kwd.upper()
             valid = False
             if kwd == 'DATA':
                 valid = True
-- 
2.43.0


From 0d418911067cb6ea981822ada052c50fd6b366e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 30/74] fix: specification entries with unlisted names were
 lost when writing YAML files

---
 src/dispersion/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 5123c73..b0b8c40 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -741,6 +741,9 @@ class Writer():
                 for key, val in specs.items():
                     if spec_key == key:
                         yaml_spec[spec_key] = val
+            for key, val in specs.items():
+                if key not in spec_order:
+                    yaml_spec[key] = val
             yaml_dict['SPECS'] = yaml_spec
 
         write_yaml_file(self.file_path, yaml_dict)
-- 
2.43.0


From ddfacdd4a2ef97704181885029e5a81760d6c26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 31/74] fix: refractiveindex.info aliases of model names never
 matched the names written

---
 src/dispersion/io.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index b0b8c40..4eadfa4 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -567,15 +567,15 @@ class Writer():
                    "DataType": "type",
                    "Parameters": "coefficients",
                    "Data":"data",
-                   "Model:Sellmeier":"formula 1",
-                   "Model:Sellmeier2":"formula 2",
-                   "Model:Polynomial":"formula 3",
-                   "Model:RefractiveIndexInfo":"formula 4",
-                   "Model:Cauchy":"formula 5",
-                   "Model:Gases":"formula 6",
-                   "Model:Herzberger":"formula 7",
-                   "Model:Retro":"formula 8",
-                   "Model:Exotic":"formula 9"}
+                   "model Sellmeier":"formula 1",
+                   "model Sellmeier2":"formula 2",
+                   "model Polynomial":"formula 3",
+                   "model RefractiveIndexInfo":"formula 4",
+                   "model Cauchy":"formula 5",
+                   "model Gases":"formula 6",
+                   "model Herzberger":"formula 7",
+                   "model Retro":"formula 8",
+                   "model Exotic":"formula 9"}
 
     DATA_META_DATA_KEYS = ['Reference', 'Author',
                            'FullName', 'Name', 'Comment']
-- 
2.43.0


From 97431dbef16635fa3b2e779b7f3261d98426306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 32/74] fix: writing a text file silently dropped data that did
 not fit in one table

---
 src/dispersion/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 4eadfa4..caa2d17 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -635,9 +635,13 @@ class Writer():
         # for item in Writer.KEY_ALIASES.items():
         #     if item[0] in self.file_dict:
         #         header += "{}: {}\n".format(item[1], self.file_dict[item[0]])
-        if len(self.file_dict['Datasets']) < 1:
+        datasets = [dataset for dataset in self.file_dict['Datasets']
+                    if not dataset['DataType'].startswith('constant')]
+        if len(datasets) < 1:
             raise ValueError("no datasets present in the file dict")
-        data_dict = self.file_dict["Datasets"][0]
+        if len(datasets) > 1:
+            raise ValueError("text files can only hold a single table")
+        data_dict = datasets[0]
 
         spec_type = multi_key(data_dict, {'spectrum_type', 'SpectrumType'})
         header += "SPECTRUMTYPE: {}\n".format(spec_type)
-- 
2.43.0


From aa26994d3a41053cb5586ceff9b2f3be856efe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 33/74] fix: user defined meta data entries were written to
 YAML with another entry's value

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index caa2d17..eefaffc 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -700,8 +700,8 @@ class Writer():
 
         yaml_dict = {}
         for key in self.file_dict['MetaData']:
+            md = self.file_dict['MetaData'][key]
             if key in Writer.KEY_ALIASES:
-                md = self.file_dict['MetaData'][key]
                 yaml_dict[Writer.KEY_ALIASES[key]] = md
             else:
                 yaml_dict[key] = md
-- 
2.43.0


From d9580667fa0cdea0b0966e6506b2029877582e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 34/74] fix: building the catalogue failed with pandas >= 2,
 which removed DataFrame.append

---
 src/dispersion/catalogue.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 59aa090..e83a6d1 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -20,9 +20,6 @@ import os
 import warnings
 import numpy as np
 import pandas as pd
-ver = pd.__version__
-split = ver.split(".")
-PANDAS_MINOR_VERSION = int(split[1])
 
 from dispersion.material import Material
 from dispersion.spectrum import Spectrum
@@ -133,7 +130,7 @@ class Catalogue(object):
         all_modules = {'RefractiveIndexInfo':self.read_ri_info_db,
                        'Filmetrics':self.read_filmetrics_db,
                        'UserData':self.read_user_data_db}
-        df_new = pd.DataFrame(columns=Catalogue.META_DATA.keys())
+        dframes = []
         for module, valid in config_modules.items():
             if valid:
                 if module in rebuild or rebuild == 'All':
@@ -142,18 +139,10 @@ class Catalogue(object):
                     dir_path = os.path.join(self.base_path, db_path)
                     read_function = all_modules[module]
                     dframe = read_function(dir_path)
-                    if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
-                    else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                    dframes.append(dframe)
                 else:
                     dframe = df[df.Module == module]
-                    if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
-                    else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                    dframes.append(dframe)
 
             else:
                 if rebuild == module:
@@ -161,7 +150,10 @@ class Catalogue(object):
                                      "{}".format(rebuild) +
                                      ", however this module is disabled" +
                                      " in the configuration.")
-        return df_new
+        dframes = [dframe for dframe in dframes if not dframe.empty]
+        if not dframes:
+            return pd.DataFrame(columns=Catalogue.META_DATA.keys())
+        return pd.concat(dframes, ignore_index=True)
 
     def view_interactive(self):
         """
-- 
2.43.0


From 1528b3fe04d1ab43359db795e98113e489fa10e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 35/74] fix: register_alias failed for a slice of the database,
 the documented usage

---
 src/dispersion/catalogue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index e83a6d1..9f641e1 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -218,7 +218,10 @@ class Catalogue(object):
         """
         index = None
         if isinstance(row_id, pd.core.frame.DataFrame):
-            index = row_id.index
+            if not row_id.shape[0] == 1:
+                raise ValueError("an alias can only be set for a single row," +
+                                 " {} rows given".format(row_id.shape[0]))
+            index = row_id.index[0]
         elif isinstance(row_id, int):
             index = row_id
         if index is None:
-- 
2.43.0


From 831c25743c1ef2b352f60cfac875d922ff906fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 36/74] fix: register_alias with an invalid row number added an
 empty row to the catalogue

---
 src/dispersion/catalogue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 9f641e1..c01e594 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -228,6 +228,9 @@ class Catalogue(object):
             raise ValueError("row_id: {}".format(row_id) +
                              " with type {}".format(type(row_id)) +
                              " not understood")
+        if index not in self.database.index:
+            raise ValueError("row_id: {} ".format(row_id) +
+                             "not in the catalogue")
         if alias in self.database.loc[:, 'Alias'].values:
             if not self.database.at[index, 'Alias'] == alias:
                 raise ValueError("Alias {} ".format(alias) +
-- 
2.43.0


From 3637370277e46915865d0c320df1d2a903a35056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 37/74] fix: get_material by alias returned another material if
 the database index was not 0..N-1

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index c01e594..852601c 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -249,7 +249,7 @@ class Catalogue(object):
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
                                  "catalogue")
-            row = self.database.iloc[row_index[0], :]
+            row = self.database.loc[row_index[0], :]
 
         elif isinstance(identifier, int):
             row = self.database.iloc[identifier, :]
-- 
2.43.0


From b6785609a94d2f874c4ca8c75e8c60e84f1219d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 38/74] fix: catalogue listed spectral bounds in the units of
 the file but labelled them otherwise

---
 src/dispersion/catalogue.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 852601c..39175e1 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -357,7 +357,8 @@ class Catalogue(object):
                                 "Module":"RefractiveIndexInfo"}
                 content_dict['SpectrumType'] = 'wavelength'
                 content_dict['Unit'] = 'micrometer'
-                valid_range = mat.get_maximum_valid_range()
+                valid_range = self._range_in_units(mat, 'wavelength',
+                                                   'micrometer')
                 content_dict['SpectrumLowerBound'] = valid_range[0]
                 content_dict['SpectrumUpperBound'] = valid_range[1]
                 content_dict['Reference'] = mat.meta_data['Reference']
@@ -372,6 +373,14 @@ class Catalogue(object):
                 content_dict['K_Reference'] = np.imag(ref_index)
                 self.rii_loader['database_list'].append(content_dict)
 
+    @staticmethod
+    def _range_in_units(mat, spectrum_type, unit):
+        """valid range of the material in the units of the catalogue"""
+        spectrum = Spectrum(mat.get_maximum_valid_range(),
+                            spectrum_type=mat.defaults['spectrum_type'],
+                            unit=mat.defaults['unit'])
+        return np.sort(spectrum.convert_to(spectrum_type, unit))
+
     def read_filmetrics_db(self, db_path):
         """read the file structure provided my filmetrics.com"""
         return self._read_text_db(db_path, "Filmetrics")
@@ -408,7 +417,8 @@ class Catalogue(object):
             content_dict['Reference'] = mat.meta_data['Reference']
             content_dict['SpectrumType'] = "wavelength"
             content_dict['Unit'] = 'nanometer'
-            valid_range = mat.get_maximum_valid_range()
+            valid_range = self._range_in_units(mat, 'wavelength',
+                                               'nanometer')
             content_dict['SpectrumLowerBound'] = valid_range[0]
             content_dict['SpectrumUpperBound'] = valid_range[1]
             content_dict['Path'] = os.path.normpath(filename)
-- 
2.43.0


From 261f4f7fd741f2617a1f47cf06d258f399cc509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 39/74] fix: .nk files were left out of the catalogue

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 39175e1..2e649e6 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -399,7 +399,7 @@ class Catalogue(object):
         database_list = []
         for filename in onlyfiles:
             [name, ext] = os.path.splitext(filename)
-            allowed_ext = {'.txt', '.csv', '.yml'}
+            allowed_ext = {'.txt', '.csv', '.nk', '.yml'}
             if ext not in allowed_ext:
                 continue
 
-- 
2.43.0


From 05b0461306a8915342e0a6c8cf6e96df1f46ed62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 40/74] fix: importing the package failed if the user has no
 ~/.config directory

---
 src/dispersion/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 62f561d..96c9572 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -83,7 +83,7 @@ def _get_user_config_dir():
         config_dir = os.path.join(home_dir, ".config",
                                   "dispersion")
     if not os.path.exists(config_dir):
-        os.mkdir(config_dir)
+        os.makedirs(config_dir)
     return config_dir
 
 def _get_package_dir():
-- 
2.43.0


From 3e4c4b6ba27547ef6cce065500e961e7a4317e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 41/74] fix: get_config raised ValueError instead of returning
 defaults if there is no config file

---
 src/dispersion/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 96c9572..7d41625 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -146,7 +146,7 @@ def get_config():
     """
     try:
         config = read_config()
-    except OSError as exc:
+    except (OSError, ValueError) as exc:
         warn("No configuration file found, generating default config.")
         config = default_config()
     return config
-- 
2.43.0


From 764611e8fee0fded51c3013ac8a374597096059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 42/74] fix: setup failed if the chosen root directory did not
 exist yet

---
 src/dispersion/scripts/setup_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index 0e1832d..0ac8ba1 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -108,7 +108,7 @@ def install_modules(conf):
         if install:
             module_dir = os.path.join(conf['Path'], module)
             if not os.path.isdir(module_dir):
-                os.mkdir(module_dir)
+                os.makedirs(module_dir)
             success = install_funcs[module](module_dir)
             if success is False:
                 conf['Modules'][module] = success
-- 
2.43.0


From e076a450f30c24aeaa205d1e595d7e962f617f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 43/74] fix: setup disabled an installed refractive index info
 database with the current file layout

---
 src/dispersion/scripts/setup_dispersion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index 0ac8ba1..85fbce2 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -192,7 +192,9 @@ def install_rii(module_dir, ask_confirm=True):
                           " not present: {}".format(database_dir) +
                           " refractive index info module will be disabled")
             return False
-        database_file = os.path.join(database_dir, "library.yml")
+        database_file = os.path.join(database_dir, "catalog-nk.yml")
+        if not os.path.isfile(database_file):
+            database_file = os.path.join(database_dir, "library.yml")
         if not os.path.isfile(database_file):
             warnings.warn("library file for refractive index info module"+
                           " not present: {}".format(database_file) +
-- 
2.43.0


From 517a5ced36484f45d263ef4498ecde0cbdb6f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 44/74] fix: plotting a single spectral value failed with
 matplotlib >= 3.8

---
 src/dispersion/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index c084028..5aa27de 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -754,9 +754,9 @@ class Material():
         plt.sca(axes)
         spectrum = plot_data['spectrum']
         if spectrum.values.size == 1:
-            color = next(axes._get_lines.prop_cycler)['color']
+            color = axes._get_lines.get_next_color()
             plt.axhline(data_r, label=labels[0], color=color)
-            color = next(axes._get_lines.prop_cycler)['color']
+            color = axes._get_lines.get_next_color()
             plt.axhline(data_i, label=labels[1], ls='--', color=color)
         else:
             plt.plot(spectrum.values, data_r, label=labels[0])
-- 
2.43.0


From a1fec6115e1f8366c1284577362ef895e49df5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:23 +0000
Subject: [PATCH 45/74] fix: RefractiveIndexInfo model with integer
 coefficients and negative exponent

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 520ca26..5b8ece9 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -415,7 +415,7 @@ class RefractiveIndexInfo(Model):
             c_multi_lower = self.model_parameters[iterc*4+3]
             c_power_lower = self.model_parameters[iterc*4+4]
             rhs += (c_multi_upper*np.power(wavelengths, c_power_upper)/
-                    (wvlsq-np.power(c_multi_lower, c_power_lower)))
+                    (wvlsq-np.power(float(c_multi_lower), c_power_lower)))
         for iterc in range(len(self.model_parameters[9::2])):
             c_multi = self.model_parameters[iterc*2+9]
             c_power = self.model_parameters[iterc*2+10]
-- 
2.43.0


From a62d7bf2048aaf04f68c66a5871697bd6b0dde77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:23 +0000
Subject: [PATCH 46/74] fix: load yaml files of a model with a single
 coefficient

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 5aa27de..fb6292f 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -547,7 +547,7 @@ class Material():
             valid_range[i_valid_range] = float(v_range)
         model_dict['valid_range'] = valid_range
 
-        coefficients = data_dict['Data'].split()
+        coefficients = str(data_dict['Data']).split()
         for iter_coeff, coeff in enumerate(coefficients):
             coefficients[iter_coeff] = float(coeff)
         model_dict['parameters'] = np.array(coefficients)
-- 
2.43.0


From 86a254e8ba0f1f11b5a662d83003c1b0a4525c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:36 +0000
Subject: [PATCH 47/74] fix: write text files as utf-8 whatever the locale

np.savetxt used the locale's encoding, so that in a non UTF-8 locale non-ASCII
metadata could not be written, or was written in an encoding that the reader
(always utf-8) does not understand.
---
 src/dispersion/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index eefaffc..726d3a5 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -669,7 +669,8 @@ class Writer():
                    delimiter=delimiter,
                    header=header,
                    comments=comments,
-                   fmt="%.17g")
+                   fmt="%.17g",
+                   encoding='utf-8')
 
 
     def _write_yaml_file(self):
-- 
2.43.0


From 9dcfad38d96a9943d0cf4421e7eb8e89c2345220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:38 +0000
Subject: [PATCH 48/74] fix: refuse tables of unknown data type

A file with a data type such as 'tabulated xyz' loaded without complaint as a
material without any optical constants.
---
 src/dispersion/material.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index fb6292f..3dec1ad 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -495,7 +495,9 @@ class Material():
         elif identifier == 'eps_i':
             self.data['name'] = 'eps'
             self.data['imag'] = self._spec_data_from_table(table)
-
+        else:
+            raise ValueError("tabulated data of type <{}> ".format(identifier) +
+                             "not supported")
 
     def _spec_data_from_table(self, data):
         '''
-- 
2.43.0


From cda5471378bd444180f228086249f6ad94f93e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 49/74] fix: load tables that repeat a spectral value

validate_table returns a numpy bool, which is never identical to False, so that
fix_table was never called and files with a repeated row could not be loaded
("Expect x to not have duplicates"). Rows that are merely out of order are
sorted, as they are for tables passed as arrays, instead of being thrown out.
---
 src/dispersion/io.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 726d3a5..de4ecc6 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -89,7 +89,7 @@ def _str_table_to_numeric(table):
     else:
         raise TypeError("table of type " +
                         "{} cannot be parsed".format(type(table)))
-    if validate_table(numeric_table) is False:
+    if not validate_table(numeric_table):
         numeric_table = fix_table(numeric_table)
     return numeric_table
 
@@ -105,18 +105,13 @@ def validate_table(tabulated_data):
 
 def fix_table(tabulated_data):
     '''
-    throw out rows which break strict monotonicity
+    sort rows by spectral value and throw out rows which repeat one, so that
+    the spectral part is strictly monotonic
     '''
-    n_cols = tabulated_data.shape[1]
-    new_rows = [tabulated_data[0, :]]
-    last_valid = tabulated_data[0, 0]
-    for row in range(1, tabulated_data.shape[0]):
-        if not tabulated_data[row, 0] > last_valid:
-            continue
-        else:
-            new_rows.append(tabulated_data[row, :])
-            last_valid = tabulated_data[row, 0]
-    return np.array(new_rows).reshape(-1, n_cols)
+    order = np.argsort(tabulated_data[:, 0], kind='stable')
+    sorted_data = tabulated_data[order, :]
+    is_new = np.append(True, np.diff(sorted_data[:, 0]) > 0.)
+    return sorted_data[is_new, :]
 
 def read_yaml_file(file_path):
     """opens yaml file and returns contents as a dict like.
-- 
2.43.0


From e53d16676488fdafbea79faf3edc991b5c9f39f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 50/74] fix: refuse to rebuild a disabled module named in a
 list

---
 src/dispersion/catalogue.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 2e649e6..a7c3baa 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -145,9 +145,10 @@ class Catalogue(object):
                     dframes.append(dframe)
 
             else:
-                if rebuild == module:
-                    raise ValueError("Tried to rebuild module" +
-                                     "{}".format(rebuild) +
+                if (rebuild == module or
+                        (not isinstance(rebuild, str) and module in rebuild)):
+                    raise ValueError("Tried to rebuild module " +
+                                     "{}".format(module) +
                                      ", however this module is disabled" +
                                      " in the configuration.")
         dframes = [dframe for dframe in dframes if not dframe.empty]
-- 
2.43.0


From 332c07832a7f8c6481d9c10b84889103433be303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 51/74] fix: open the catalogue without rebuilding when rebuild
 is None

---
 src/dispersion/catalogue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index a7c3baa..743c010 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -95,6 +95,8 @@ class Catalogue(object):
     def __init__(self, config=None, rebuild="None"):
         if config is None:
             config = get_config()
+        if rebuild is None:
+            rebuild = "None"
         validate_config(config)
         self.make_reference_spectrum(config)
         self.config = config
-- 
2.43.0


From 50410fa72caec94b081faf8ae660e932038b1a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:15 +0000
Subject: [PATCH 52/74] fix: write a first configuration to the user's
 directory

---
 src/dispersion/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 7d41625..1457ea9 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -116,7 +116,10 @@ def write_config(config, dir_path=None):
     No check is made if the config is valid or complete.
     """
     if dir_path is None:
-        dir_path = _get_config_dir()
+        try:
+            dir_path = _get_config_dir()
+        except ValueError:
+            dir_path = _get_user_config_dir()
     file_path = os.path.join(dir_path, 'config.yaml')
     write_yaml_file(file_path, config)
 
-- 
2.43.0


From d80db8f893dfe617fc49b82adc76c789bbffb4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:15 +0000
Subject: [PATCH 53/74] fix: default configuration path was parsed as yaml

---
 src/dispersion/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 1457ea9..fba207d 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -59,7 +59,7 @@ def default_config():
         the tree of configuration data
     """
     yaml_str = """\
-    Path: {}
+    Path: ""
     File: catalogue.csv
     Interactive: false #for jupyter interfactive editing
     WarnMissingPackages: False # raise warnings if non-essential packages are missing
@@ -70,8 +70,9 @@ def default_config():
       Value: 632.8
       SpectrumType: wavelength
       Unit: nanometer
-    """.format(_get_user_config_dir())
+    """
     config = read_yaml_string(yaml_str)
+    config['Path'] = _get_user_config_dir()
     return config
 
 def _get_user_config_dir():
-- 
2.43.0


From aa032c293e4441d6c63310bac34ebcbe51b4ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:58 +0000
Subject: [PATCH 54/74] fix: valid range of a material was not exact in its own
 unit

The range was converted to metres and back, so that its ends, and with them
the sample spectrum, could lie outside the range by a rounding error.
---
 src/dispersion/material.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 3dec1ad..a93c486 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -688,21 +688,15 @@ class Material():
                                " a valid n/k or permittivity spectrum")
 
         if self.data['complex'] is None:
-            real_range_std = self.data['real'].valid_range.standard_rep
-            imag_range_std = self.data['imag'].valid_range.standard_rep
-            real_lower = np.min(real_range_std)
-            real_upper = np.max(real_range_std)
-            imag_lower = np.min(imag_range_std)
-            imag_upper = np.max(imag_range_std)
-            lower = np.max([real_lower, imag_lower])
-            upper = np.min([real_upper, imag_upper])
+            parts = [self.data['real'], self.data['imag']]
         else:
-            lower = np.min(self.data['complex'].valid_range.standard_rep)
-            upper = np.max(self.data['complex'].valid_range.standard_rep)
-        max_range = np.array([lower, upper])
-        spec = Spectrum(max_range)
-        return np.sort(spec.convert_to(self.defaults['spectrum_type'],
-                                       self.defaults['unit']))
+            parts = [self.data['complex']]
+        ranges = [part.valid_range.convert_to(self.defaults['spectrum_type'],
+                                              self.defaults['unit'])
+                  for part in parts]
+        lower = np.max([np.min(part_range) for part_range in ranges])
+        upper = np.min([np.max(part_range) for part_range in ranges])
+        return np.sort([lower, upper])
 
     @staticmethod
     def utf8_to_ascii(string):
-- 
2.43.0


From 9179cfb72afb333552b1ef7f35c2706124a7301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:03 +0000
Subject: [PATCH 55/74] fix: sample spectrum of data in two units left the
 valid range

Rounding in the conversion between the units of the real and the imaginary
part put the ends of the sample spectrum outside the range of one of them.
---
 src/dispersion/material.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index a93c486..3375b28 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -797,16 +797,36 @@ class Material():
             spectrum = Spectrum(values, spectrum_type='wavelength',
                                 unit='nm')
         else:
-            values = np.geomspace(max_range[0], max_range[1], 1000)
-            if values[0] < max_range[0]:
-                values[0] = max_range[0]
-            if values[-1] > max_range[1]:
-                values[-1] = max_range[1]
+            lower = self._end_inside(max_range[0], max_range[1])
+            upper = self._end_inside(max_range[1], max_range[0])
+            values = np.geomspace(lower, upper, 1000)
+            if values[0] < lower:
+                values[0] = lower
+            if values[-1] > upper:
+                values[-1] = upper
             spectrum = Spectrum(values,
                                 spectrum_type=self.defaults['spectrum_type'],
                                 unit=self.defaults['unit'])
         return spectrum
 
+    def _end_inside(self, end, other_end):
+        """move the end of the valid range inwards by the rounding error
+        with which real or imaginary data in another unit excludes it"""
+        parts = [part for part in (self.data['real'], self.data['imag'],
+                                   self.data['complex']) if part is not None]
+        for shift in np.append(0.0, np.geomspace(1e-15, 1e-1, 15)):
+            value = float(end + shift*(other_end-end))
+            spectrum = Spectrum(value,
+                                spectrum_type=self.defaults['spectrum_type'],
+                                unit=self.defaults['unit'])
+            try:
+                for part in parts:
+                    part.valid_range.contains(spectrum)
+                break
+            except ValueError:
+                continue
+        return value
+
     def prepare_file_dict(self):
         #if self._file_data is not None:
         #    return self._file_data
-- 
2.43.0


From 9f515689c5d3d96c732d91921fb0f9426cea13c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:03 +0000
Subject: [PATCH 56/74] fix: default plot in another unit left the valid range

The sample spectrum was converted to the unit of the axis before evaluating
it, and rounding could put its ends outside the valid range.
---
 src/dispersion/material.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 3375b28..ef6756f 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -736,10 +736,10 @@ class Material():
         else:
             plot_data['axes'] = kwargs['axes']
         if data_label == 'nk':
-            data = self.get_nk_data(plot_data['spectrum'])
+            data = self.get_nk_data(plot_data['evaluate'])
             labels = ['n', 'k']
         elif data_label == 'permittivity':
-            data = self.get_permittivity(plot_data['spectrum'])
+            data = self.get_permittivity(plot_data['evaluate'])
             labels = ['eps_r', 'eps_i']
 
         data_r = np.real(data)
@@ -783,10 +783,13 @@ class Material():
             values = kwargs['values']
             if isinstance(values, (list, tuple)):
                 values = np.array(values)
-        spectrum = Spectrum(values,
-                            spectrum_type=plot_data['spectrum_type'],
-                            unit=plot_data['unit'])
-        plot_data['spectrum'] = spectrum
+            spectrum = None
+        plot_data['spectrum'] = Spectrum(
+            values, spectrum_type=plot_data['spectrum_type'],
+            unit=plot_data['unit'])
+        # evaluate the sample spectrum in its own unit, as rounding may put
+        # the ends of the converted values outside the valid range
+        plot_data['evaluate'] = spectrum or plot_data['spectrum']
         return plot_data
 
     def get_sample_spectrum(self):
-- 
2.43.0


From 459a38746f85375087c9f8dfc35a6d466b287253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:03 +0000
Subject: [PATCH 57/74] fix: plot a single value given as float

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index ef6756f..43fd9e8 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -749,7 +749,7 @@ class Material():
         axes = plot_data['axes']
         plt.sca(axes)
         spectrum = plot_data['spectrum']
-        if spectrum.values.size == 1:
+        if np.size(spectrum.values) == 1:
             color = axes._get_lines.get_next_color()
             plt.axhline(data_r, label=labels[0], color=color)
             color = axes._get_lines.get_next_color()
-- 
2.43.0


From ae63087c8feba6c195fc946ffaf993f04bca8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:10 +0000
Subject: [PATCH 58/74] fix: interpolation order of None or of the wrong type
 was not handled

The name of the argument was misspelt when its type was checked.
---
 src/dispersion/material.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 43fd9e8..313a100 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -190,13 +190,13 @@ class Material():
             inputs['spectrum_type'] = 'wavelength'
         if inputs['unit'] is None:
             inputs['unit'] = 'nanometer'
-        if 'interp_order' not in inputs:
-            inputs['interp_order'] = 1
         # pylint: disable=no-member
         # bug in pylint does not recognise numpy data types
-        int_args = {'interp_oder'}
+        int_args = {'interp_order'}
         int_types = {int}
         self._check_type(inputs, int_args, int_types)
+        if inputs['interp_order'] is None:
+            inputs['interp_order'] = 1
 
         float_args = {"fixed_n", "fixed_eps_r"}
         float_types = {float, np.double}
-- 
2.43.0


From 7c7b25bd84bc26d034073b11fe19a276d6f8cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:18 +0000
Subject: [PATCH 59/74] fix: model changed when the array its parameters came
 from was overwritten

---
 src/dispersion/spectral_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 5b8ece9..4f82284 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -45,6 +45,7 @@ Notes
 -----
 for more information on models see https://refractiveindex.info/about
 """
+import copy
 import re
 import numpy as np
 from scipy.interpolate import interp1d, splrep, splev
@@ -242,7 +243,7 @@ class Model(SpectralData):
 
     def __init__(self, model_parameters, valid_range, spectrum_type='wavelength',
                  unit='m'):
-        self.model_parameters = model_parameters
+        self.model_parameters = copy.copy(model_parameters)
         super(Model, self).__init__(valid_range,
                                     spectrum_type=spectrum_type,
                                     unit=unit)
-- 
2.43.0


From 48a623fcb0019b82a5a20f708745b58028a1bbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:30 +0000
Subject: [PATCH 60/74] fix: comparing a material from a file with another one
 failed

Materials read from a file had no alias entry in their metadata.
---
 src/dispersion/material.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 313a100..424d99f 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -425,7 +425,6 @@ class Material():
     def _process_file_data(self, file_dict):
         """set meta_data and data from dictionary"""
         self._file_data = file_dict
-        self.meta_data = {}
         self.meta_data['Reference'] = file_dict['MetaData']['Reference']
         self.meta_data['Comment'] = file_dict['MetaData']['Comment']
         self.meta_data['Name'] = file_dict['MetaData']['Name']
-- 
2.43.0


From 45d4d8cf24f490fbe230c2af34db9eb9ce1cf571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:58 +0000
Subject: [PATCH 61/74] fix: Tauc-Lorentz real part was NaN for broadening
 above sqrt(2) times the pole energy

only the square of gamma enters the formula, which is negative there
---
 src/dispersion/spectral_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 4f82284..16f7acb 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -656,8 +656,8 @@ class TaucLorentz(Model):
                     E0**2*(E0**2+3*Eg**2))
         alpha_atan = (E**2-E0**2)*(E0**2+Eg**2) + Eg**2*C**2
         alpha = np.sqrt(4*E0**2-C**2)
-        gamma = np.sqrt(E0**2 -0.5*C**2)
-        zeta4 = (E**2-gamma**2)**2 + 0.25*alpha**2*C**2
+        gamma_sq = E0**2 -0.5*C**2
+        zeta4 = (E**2-gamma_sq)**2 + 0.25*alpha**2*C**2
 
         part1 = (0.5*(A*C*alpha_ln/(np.pi*zeta4*alpha*E0)) *
                  np.log( (E0**2+Eg**2+alpha*Eg)/(E0**2+Eg**2-alpha*Eg)))
@@ -672,7 +672,7 @@ class TaucLorentz(Model):
         #           (np.pi+2*np.arctan2((gamma**2-Eg**2),(alpha*C)))))
 
         part3_1 = (4.*A*E0/(np.pi*zeta4*alpha))
-        part3_2 = Eg*(E**2-gamma**2)
+        part3_2 = Eg*(E**2-gamma_sq)
         part3_3 = ( np.arctan2(alpha+2*Eg,C) +
                     np.arctan2(alpha-2*Eg,C))
         part3 = part3_1 * part3_2 * part3_3
-- 
2.43.0


From 01b4650e5089010931f1079b138923be178e6fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:31 +0000
Subject: [PATCH 62/74] fix: Tauc-Lorentz real part was NaN at exactly the gap
 energy

two diverging logarithms cancel there, as their sum goes to zero
---
 src/dispersion/spectral_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 16f7acb..68f36a4 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -677,12 +677,14 @@ class TaucLorentz(Model):
                     np.arctan2(alpha-2*Eg,C))
         part3 = part3_1 * part3_2 * part3_3
 
+        # the logarithms cancel at the gap, where each of them diverges
+        distance = np.where(E == Eg, 1.0, np.abs(E-Eg))
         part4 = ((-A*E0*C/(np.pi*zeta4))*
                  ((E**2+Eg**2)/E) *
-                 np.log( np.abs(E-Eg)/(E+Eg)))
+                 np.log( distance/(E+Eg)))
 
         part5 = ((2.*A*E0*C*Eg/(np.pi*zeta4)) *
-                 np.log( (np.abs(E-Eg)*(E+Eg))/
+                 np.log( (distance*(E+Eg))/
                          np.sqrt((E0**2-Eg**2)**2+Eg**2*C**2)))
 
         eps_real = eps_inf + part1 + part2 + part3 + part4 +part5
-- 
2.43.0


From b0a7af98b717985c47c5727a1750e372f9958b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:55 +0000
Subject: [PATCH 63/74] fix: YAML tables were cut off at the first blank line

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index de4ecc6..a66dad7 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -79,7 +79,7 @@ def _str_table_to_numeric(table):
         numeric_table = []
         for row in table.split('\n'):
             if row.isspace() or row == "":
-                break
+                continue
             numeric_col = []
             for col in row.split():
                 numeric_col.append(float(col))
-- 
2.43.0


From de35237b433639ca0af37eb4ab648fa78538159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:09 +0000
Subject: [PATCH 64/74] fix: a refused extrapolation extended the real part of
 the material

---
 src/dispersion/material.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 424d99f..15bbc7d 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -292,12 +292,14 @@ class Material():
         """
 
         if self.data['complex'] is None:
+            new_data = {}
             for data_name in ['real', 'imag']:
                 if isinstance(self.data[data_name], Constant):
                     continue
-                self.data[data_name] = Extrapolation(self.data[data_name],
-                                                     new_spectrum,
-                                                     spline_order=spline_order)
+                new_data[data_name] = Extrapolation(self.data[data_name],
+                                                    new_spectrum,
+                                                    spline_order=spline_order)
+            self.data.update(new_data)
         else:
             raise NotImplementedError("extrapolation not implemented " +
                                       "for materials with real and imaginary "+
-- 
2.43.0


From ea5afecf4ad7411dc53acf57fe007424f7416c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:02 +0000
Subject: [PATCH 65/74] fix: one NaN in a request disabled the range check of
 all values

---
 src/dispersion/spectrum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 779fd33..07c948b 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -232,9 +232,10 @@ class Spectrum(object):
         self_min = np.min(self.values)
         self_max = np.max(self.values)
         out_of_range = None
-        if other_min < self_min:
+        # NaN lies in no range: min and max are NaN, comparisons are False
+        if not other_min >= self_min:
             out_of_range = other_min
-        elif other_max > self_max:
+        elif not other_max <= self_max:
             out_of_range = other_max
         if out_of_range is not None:
             dsu = self.display_string(self.unit)  # display string unit
-- 
2.43.0


From f58517224a5576edd3ffc979f4b4d4310174ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:03 +0000
Subject: [PATCH 66/74] fix: constant data written to a YAML file could not be
 read back

---
 src/dispersion/io.py            |  2 ++
 src/dispersion/material.py      | 23 +++++++++++++++++++++++
 src/dispersion/spectral_data.py |  2 +-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index a66dad7..bbbd12b 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -500,6 +500,8 @@ class Reader():
                     data_dict['Data'] = dataset['data']
                 except KeyError:
                     data_dict['Data'] = dataset['Data']
+            elif data_type.startswith('constant'):
+                data_dict['Data'] = dataset['Value']
             else:
                 raise KeyError("data type <{}> invalid".format(data_type))
 
diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 15bbc7d..d11285e 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -448,6 +448,9 @@ class Material():
             elif data_type in {'formula', 'model'}:
                 #data is a formula with coefficients
                 self._process_formula_data(dataset)
+            elif data_type == 'constant':
+                #data does not depend on the spectrum
+                self._process_constant_data(dataset, identifier)
             else:
                 raise ValueError("data type {} not supported".format(data_type))
 
@@ -500,6 +503,26 @@ class Material():
             raise ValueError("tabulated data of type <{}> ".format(identifier) +
                              "not supported")
 
+    def _process_constant_data(self, dataset, identifier):
+        """
+        Uses a constant read from file to set relevant class attributes.
+        """
+        names = {'n': ('nk', 'real'), 'k': ('nk', 'imag'),
+                 'eps_r': ('eps', 'real'), 'eps_i': ('eps', 'imag')}
+        if identifier not in names:
+            raise ValueError("constant data of type <{}> ".format(identifier) +
+                             "not supported")
+        self.data['name'], part = names[identifier]
+        kwargs = {}
+        if dataset['ValidRange']:
+            kwargs['valid_range'] = [float(value) for value in
+                                     dataset['ValidRange'].split()]
+        if dataset['SpectrumType']:
+            kwargs['spectrum_type'] = dataset['SpectrumType']
+        if dataset['Unit']:
+            kwargs['unit'] = dataset['Unit']
+        self.data[part] = Constant(float(dataset['Data']), **kwargs)
+
     def _spec_data_from_table(self, data):
         '''
         Convert table to SpectralData object.
diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 68f36a4..426ad09 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -110,7 +110,7 @@ class Constant(SpectralData):
         data['ValidRange'] = _numeric_to_string_table(self.valid_range.values)
         data['SpectrumType'] = self.spectrum_type
         data['Unit'] = self.unit
-        data['Value'] = self.constant
+        data['Value'] = np.asarray(self.constant).item()
         return data
 
 class Extrapolation(SpectralData):
-- 
2.43.0


From 0f1954e4b05292fcde0cfa54d4d6752de8cdd919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:06 +0000
Subject: [PATCH 67/74] fix: writing a material without spectral data to YAML
 ended in an IndexError

---
 src/dispersion/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index bbbd12b..fa616e2 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -687,8 +687,10 @@ class Writer():
             if ("constant" in dataset['DataType'] and
                     self.ignore_constant):
                 pop_dataset.append(ids)
-        for pop_id in pop_dataset:
+        for pop_id in reversed(pop_dataset):
             self.file_dict['Datasets'].pop(pop_id)
+        if len(self.file_dict['Datasets']) < 1:
+            raise ValueError("no datasets present in the file dict")
             # if isinstance(dataset['data'], np.ndarray):
             #     string_array = np.array2string(dataset['data'])
             #     no_brackets = re.sub(r'[\[\]]', '', string_array)
-- 
2.43.0


From 925f169538cd2498075166c23404519cd818e622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:46 +0000
Subject: [PATCH 68/74] fix: read_yaml_file skipped what it had read of a file
 with syntax errors

---
 src/dispersion/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index fa616e2..38eca1d 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -139,6 +139,7 @@ def read_yaml_file(file_path):
             try:
                 yaml_data = yaml.load(fpt, Loader=yaml.FullLoader)
             except:
+                fpt.seek(0)
                 yaml_data = yaml.safe_load(fpt)
     return yaml_data
 
-- 
2.43.0


From 2ede4b328609fdf1ab5b7b6a5cf2dc77e19271ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:54 +0000
Subject: [PATCH 69/74] fix: get_config took a configuration that cannot be
 decoded for a missing one

---
 src/dispersion/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index fba207d..3413637 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -149,11 +149,11 @@ def get_config():
         the configuration data
     """
     try:
-        config = read_config()
+        _get_config_dir()
     except (OSError, ValueError) as exc:
         warn("No configuration file found, generating default config.")
-        config = default_config()
-    return config
+        return default_config()
+    return read_config()
 
 if __name__ == "__main__":
     print(get_config())
-- 
2.43.0


From 4923ae2473f6e9274d0882a06058efd3b9e3ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:54 +0000
Subject: [PATCH 70/74] fix: a Writer could write only once

---
 src/dispersion/io.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 38eca1d..bcc07fc 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -598,7 +598,7 @@ class Writer():
         """
         self.ignore_constant = ignore_constant
         self.use_rii_aliases = use_rii_aliases
-        meta_comment = self.file_dict['MetaData'].pop('MetaComment')
+        meta_comment = self.file_dict['MetaData']['MetaComment']
         #raise NotImplementedError("writing material files not yet implemented")
         txt_types = {'.txt', '.csv', '.nk'}
         if self.extension in txt_types:
@@ -682,15 +682,11 @@ class Writer():
                 pop_keys.append(key)
         for key in pop_keys:
             self.file_dict.pop(key)
-        pop_dataset = []
-
-        for ids, dataset in enumerate(self.file_dict['Datasets']):
-            if ("constant" in dataset['DataType'] and
-                    self.ignore_constant):
-                pop_dataset.append(ids)
-        for pop_id in reversed(pop_dataset):
-            self.file_dict['Datasets'].pop(pop_id)
-        if len(self.file_dict['Datasets']) < 1:
+        # the file dict is kept as it is, to be written again
+        datasets = [dataset for dataset in self.file_dict['Datasets']
+                    if not ("constant" in dataset['DataType'] and
+                            self.ignore_constant)]
+        if len(datasets) < 1:
             raise ValueError("no datasets present in the file dict")
             # if isinstance(dataset['data'], np.ndarray):
             #     string_array = np.array2string(dataset['data'])
@@ -701,13 +697,15 @@ class Writer():
 
         yaml_dict = {}
         for key in self.file_dict['MetaData']:
+            if key == 'MetaComment':
+                continue
             md = self.file_dict['MetaData'][key]
             if key in Writer.KEY_ALIASES:
                 yaml_dict[Writer.KEY_ALIASES[key]] = md
             else:
                 yaml_dict[key] = md
 
-        yaml_dict['DATA'] = self.file_dict['Datasets']
+        yaml_dict['DATA'] = datasets
 
 
         if self.use_rii_aliases:
-- 
2.43.0


From 32f5cf76edac8c8cdc64704a1d175d7987c0d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:28 +0000
Subject: [PATCH 71/74] fix: numpy numbers and texts were written to YAML files
 that cannot be loaded

---
 src/dispersion/io.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index bcc07fc..5e545b4 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -50,6 +50,13 @@ except ModuleNotFoundError as exc:
 #USE_RUAMEL = False
 #import yaml
 
+if not USE_RUAMEL:
+    class _Dumper(yaml.Dumper):
+        """writes numpy scalars as the plain values they stand for"""
+
+    _Dumper.add_multi_representer(
+        np.generic, lambda dumper, value: dumper.represent_data(value.item()))
+
 def multi_key(dict_obj, key_set):
     for key in key_set:
         if key in dict_obj:
@@ -192,7 +199,7 @@ def write_yaml_file(file_path, dict_like):
             scalarstring.walk_tree(dict_like)
             yaml_obj.dump(dict_like, fpt)
         else:
-            yaml.dump(dict_like, fpt)
+            yaml.dump(dict_like, fpt, Dumper=_Dumper)
 
 def print_yaml_string(dict_like):
     """print a dict_like object to stdout in yaml format.
-- 
2.43.0


From 298f80671120ddcf9c83c60e17f66d884b420f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:41 +0000
Subject: [PATCH 72/74] fix: Spectrum.check_unit knew only one name of each
 unit

---
 src/dispersion/spectrum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 07c948b..a7aa5d1 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -264,8 +264,10 @@ class Spectrum(object):
     def check_unit(unit, is_unit):
         """test if two unit strings are equal taking aliases
         into account"""
-        test_str = unit.lower()
-        return test_str == is_unit
+        units = {unit.lower(), is_unit.lower()}
+        return (len(units) == 1 or
+                any(units <= aliases
+                    for aliases in Spectrum.UNIT_TYPES.values()))
 
     @staticmethod
     def display_string(unit):
-- 
2.43.0


From c0c8851f193e76114835487d78010e1ba620d444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:45 +0000
Subject: [PATCH 73/74] fix: numpy numbers and texts were printed as YAML that
 cannot be read back

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 5e545b4..63f8e0e 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -213,7 +213,7 @@ def print_yaml_string(dict_like):
         yaml_obj = YAML()
         yaml_obj.dump(dict_like, sys.stdout)
     else:
-        print(yaml.dump(dict_like))
+        print(yaml.dump(dict_like, Dumper=_Dumper))
 
 def prepend_text_to_file(file_path, text, extra_line=False,
                          comment_char="#"):
-- 
2.43.0


From 8e88a735af8c7b5373ac422ee0c75eeddc1aa3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:05 +0000
Subject: [PATCH 74/74] fix: extrapolating data whose range was given upper end
 first lost the known range

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 426ad09..17a1d12 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -143,7 +143,7 @@ class Extrapolation(SpectralData):
         extrap_values = extended_spectrum.convert_to(
             spectrum_type= base_spectrum.spectrum_type,
             unit= base_spectrum.unit)
-        new_range = np.array(base_spectrum.values)
+        new_range = np.sort(base_spectrum.values)
         if isinstance(extrap_values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
             if extrap_values.size > 2:
-- 
2.43.0

