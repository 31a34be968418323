From 9d59ff8bcfe03397108ba10c3cc97b2e96eb9e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:35 +0000
Subject: [PATCH 01/16] fix: read NIST values that are given without an
 uncertainty

Monoisotopic elements list 'Isotopic Composition = 1' with no uncertainty in
parentheses. The reader treated such lines as empty and returned the default,
so Al, Au, Na and the other monoisotopic elements had an abundance and an
effective mass of 0.
---
 ries/constituents/natural_element_data.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ries/constituents/natural_element_data.py b/ries/constituents/natural_element_data.py
index cd1d01a..e839bfb 100644
--- a/ries/constituents/natural_element_data.py
+++ b/ries/constituents/natural_element_data.py
@@ -162,6 +162,11 @@ class NISTElementDataReader:
             PROPERTY = VALUE(UNCERTAINTY)
 
         this function reads `VALUE` and casts it to a `float`.
+        The uncertainty may be missing, i.e. the line may also look like
+
+        ::
+
+            PROPERTY = VALUE
 
         Parameters:
 
@@ -174,9 +179,9 @@ class NISTElementDataReader:
 
         - float, value
         """
-        return self.read_nist_element_property(
-            line[0 : line.find("(") + 1], prefix, float, default
-        )
+        if "(" in line:
+            line = line[0 : line.find("(") + 1]
+        return self.read_nist_element_property(line, prefix, float, default)
 
     def read_nist_element_symbols(self):
         """Find all element symbols in the data file and organize them in a dictionary.
-- 
2.43.0


From 414733dbb8a00e70d95cca7840cdaea7b7270608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:35 +0000
Subject: [PATCH 02/16] fix: match the complete element symbol when reading
 densities

The reader accepted any line whose first two characters contain the symbol.
Boron, sulfur and iodine got the densities of Be, Si and In, which come
first in the data file.
---
 ries/constituents/natural_element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/constituents/natural_element_data.py b/ries/constituents/natural_element_data.py
index e839bfb..5562422 100644
--- a/ries/constituents/natural_element_data.py
+++ b/ries/constituents/natural_element_data.py
@@ -264,7 +264,7 @@ class Geant4DensityDataReader:
 
         with open(self.density_data_file_name, "r") as file:
             for line in file:
-                if X in line[0:2]:
+                if X == line[0:2].strip():
                     return self.density_conversion(float(line[2:]))
 
             return None
-- 
2.43.0


From 9123391d4eda629b66b4d4895c9f5aa1316e8220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:35 +0000
Subject: [PATCH 03/16] fix: do not cut off the last line of an XRMAC file
 without a newline

The reader removed two characters from every line, assuming a trailing space
and a newline. The file for lead has no newline at the end, so its last
mass-energy absorption coefficient was read as 3.595 instead of 3.595E-02.
---
 ries/nonresonant/xrmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index 969d9a4..bced4d5 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -214,7 +214,7 @@ class XRMAC(Nonresonant):
                 skip = 3
         with open(xrmac_file_name, "r") as file:
             for line in file:
-                line = line[skip:-2].split(sep="  ")
+                line = line[skip:].split()
                 data.append(
                     [
                         self.energy_conversion(float(line[0])),
-- 
2.43.0


From 388f32eb927a0d3a9f900b04dfc84e3adb0714e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:35 +0000
Subject: [PATCH 04/16] fix: use the PPF approximation if only some quantiles
 do not converge

For arrays, the root finder raises an exception only if all elements fail.
If only some of them failed, e.g. for a coverage of 1, the method returned
None instead of the documented fallback approximation.
---
 ries/resonance/pseudo_voigt.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index b43ad74..1bbd8f2 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -240,11 +240,13 @@ class PseudoVoigtDistribution:
                 return newton_result[0]
 
         except RuntimeError:
-            warnings.warn(
-                "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed for at least one value. Using approximation instead.",
-                UserWarning,
-            )
-            return self.pseudo_voigt_expression(quantile, "ppf")
+            pass
+
+        warnings.warn(
+            "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed for at least one value. Using approximation instead.",
+            UserWarning,
+        )
+        return self.pseudo_voigt_expression(quantile, "ppf")
 
     def get_Gamma(self):
         """Calculate Gamma parameter
-- 
2.43.0


From 7009c102947c4db256126942ce696b429137d7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:35 +0000
Subject: [PATCH 05/16] fix: use the correct width for the Cauchy part of the
 pseudo-Voigt

gamma_L is already half of the FWHM, i.e. the scale parameter of the Cauchy
distribution. Dividing it by two again made the Cauchy part too narrow by a
factor of two, so the pseudo-Voigt did not approach the Breit-Wigner shape
for a vanishing Doppler width.
---
 ries/resonance/pseudo_voigt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index 1bbd8f2..45581f8 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -166,7 +166,7 @@ class PseudoVoigtDistribution:
             """(1.0 - self.eta) * norm.{}(
             x, loc=self.resonance_energy, scale=self.gamma_G / np.sqrt(2.0)
         ) + self.eta * cauchy.{}(
-            x, loc=self.resonance_energy, scale=0.5 * self.gamma_L
+            x, loc=self.resonance_energy, scale=self.gamma_L
         )""".format(
                 method, method
             )
-- 
2.43.0


From 5fd6b9c0b974b85fc3dece569e9326e5752935e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:35 +0000
Subject: [PATCH 06/16] fix: set negative lower limits of coverage intervals to
 zero

The warning announced that zero would be returned, but the negative limit was
returned. The coverage quoted in the warning ignored the parameters of the
probability distribution.
---
 ries/resonance/resonance.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index cf9ff52..d14e69e 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -295,10 +295,17 @@ class Resonance(CrossSection):
         if limits[0] < 0.0:
             warnings.warn(
                 "Unphysical negative lower limit of coverage interval encountered. Returning zero instead. The maximum coverage that can be reached with positive energies for this cross section is {:f} %.".format(
-                    100.0 * (1.0 - self.probability_distribution.cdf(0.0))
+                    100.0
+                    * (
+                        1.0
+                        - self.probability_distribution.cdf(
+                            0.0, *self.probability_distribution_parameters
+                        )
+                    )
                 ),
                 UserWarning,
             )
+            limits[0] = 0.0
         if np.isinf(limits[1]):
             warnings.warn(
                 "Infinite upper limit of coverage interval encountered.", UserWarning
-- 
2.43.0


From 3e051c920de92367d1aeb6839081d84f8ea2d8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:35 +0000
Subject: [PATCH 07/16] fix: keep equidistant-probability grids inside the
 given limits

If both limits are far away from the resonance, the CDF is numerically the
same for both of them and the grid contained infinite energies.
---
 ries/resonance/resonance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index d14e69e..584190b 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -367,7 +367,11 @@ class Resonance(CrossSection):
         # probability_distribution.cdf() may return 0 or 1 instead of 0.000... or 0.999...,
         # which would then cause probability_distribution.ppf to return -np.inf or np.inf as
         # limits of the grid instead of the given values.
+        # If both limits are far away, the same can happen to all other grid points.
         if not isinstance(coverage_or_limits, (int, float)):
+            equ_dis_pro_grid = np.clip(
+                equ_dis_pro_grid, coverage_or_limits[0], coverage_or_limits[1]
+            )
             equ_dis_pro_grid[0] = coverage_or_limits[0]
             equ_dis_pro_grid[-1] = coverage_or_limits[1]
         return equ_dis_pro_grid
-- 
2.43.0


From 05936e18e890a8fc0ab123333bda9dba9cb31f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:35 +0000
Subject: [PATCH 08/16] fix: accept an array of limits in quad_partition

The limits are documented as an array, but evaluating the truth value of an
array raises a ValueError.
---
 ries/integration/quad_partition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ries/integration/quad_partition.py b/ries/integration/quad_partition.py
index d850830..94e78a9 100644
--- a/ries/integration/quad_partition.py
+++ b/ries/integration/quad_partition.py
@@ -67,7 +67,8 @@ def quad_partition(f, x0, x1_to_xn_minus_1=None):
     """
     integral = 0.0
     uncertainty_estimate = 0.0
-    x1_to_xn_minus_1 = x1_to_xn_minus_1 or []
+    if x1_to_xn_minus_1 is None:
+        x1_to_xn_minus_1 = []
 
     for i in range(len(x0) - 1):
         nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])
-- 
2.43.0


From 94a2136f5f5b6a6b774a5de41d968345b713036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:35 +0000
Subject: [PATCH 09/16] fix: allow the initialization of an empty
 CrossSectionWeightedSum

The default value of the first parameter is None, which has no length.
---
 ries/cross_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/cross_section.py b/ries/cross_section.py
index 38ad450..fa62b58 100644
--- a/ries/cross_section.py
+++ b/ries/cross_section.py
@@ -222,7 +222,7 @@ class CrossSectionWeightedSum:
         """
         self.reactions = reactions or []
         if scale_factors is None:
-            scale_factors = [1.0] * len(reactions)
+            scale_factors = [1.0] * len(self.reactions)
         self.scale_factors = scale_factors
 
     def __add__(self, other):
-- 
2.43.0


From df5be0782876929386efc05287a63de179d6bf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:35 +0000
Subject: [PATCH 10/16] fix: accept all types of scalars in sums of cross
 sections

NumPy integers and single-precision floats were not recognized as scalars.
---
 ries/cross_section.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ries/cross_section.py b/ries/cross_section.py
index fa62b58..c7de55f 100644
--- a/ries/cross_section.py
+++ b/ries/cross_section.py
@@ -62,6 +62,7 @@ This may lead to runtime `TypeError`s.*
 """
 
 from itertools import chain
+from numbers import Number
 
 import numpy as np
 
@@ -81,7 +82,7 @@ class CrossSection:
 
         See `CrossSectionWeightedSum.__add__()`.
         """
-        if isinstance(other, (int, float)):
+        if isinstance(other, Number):
             return CrossSectionWeightedSum([self, ConstantCrossSection(other)])
         return CrossSectionWeightedSum([self, other])
 
@@ -253,7 +254,7 @@ class CrossSectionWeightedSum:
             reactions.append(reaction)
             scale_factors.append(self.scale_factors[i])
 
-        if isinstance(other, (int, float)):
+        if isinstance(other, Number):
             reactions.append(ConstantCrossSection(other))
             scale_factors.append(1.0)
         elif isinstance(other, CrossSection):
-- 
2.43.0


From 1ea64494542f38bf1a602a37e2ad2aaf024cdaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:35 +0000
Subject: [PATCH 11/16] fix: apply the unit conversions to XRMAC data given as
 an array

The conversion functions were only used for data from files and silently
ignored for arrays.
---
 ries/nonresonant/xrmac.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index bced4d5..cd9a124 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -125,6 +125,10 @@ class XRMAC(Nonresonant):
         self.xrmac_conversion = xrmac_conversion
         if isinstance(data, str):
             data = self.read_nist_xrmac(data)
+        else:
+            data = np.array(data, dtype=float)
+            data[:, 0] = self.energy_conversion(data[:, 0])
+            data[:, 1:] = self.xrmac_conversion(data[:, 1:])
         self.data = data
         self.interpolation_log_log = self.interpolate_log_log(self.data)
 
-- 
2.43.0


From b859fbf2b1364d4bff962416786a245b0c189156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:54:29 +0000
Subject: [PATCH 12/16] fix: average the unpolarized Klein-Nishina formula over
 the azimuthal angle

The solid-angle differential cross section for an unpolarized photon was
integrated over the azimuthal angle instead of averaged, i.e. too large by a
factor of 2 pi. The cross sections derived from it now perform the
integration, and their values are unchanged.
---
 ries/nonresonant/klein_nishina.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index ba57256..d2e28f7 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -47,7 +47,7 @@ The equation above also contains the energy of the scattered photon, :math:`E^\p
 If no information on the polarization of the incident photon is available, the differential
 cross section can be averaged over the azimuthal angle:
 
-.. math:: \frac{\mathrm{d} \sigma_\mathrm{Compton, unpolarized}}{\mathrm{d}\Omega} (E, \Omega) = \frac{\int_0^{2\pi} \frac{\mathrm{d} \sigma_\mathrm{Compton}}{\mathrm{d}\Omega} (E, \Omega) \mathrm{d} \varphi}{\int_0^{2\pi} \mathrm{d} \varphi} = \frac{\pi \alpha^2 \hbar^2}{m^2 c^2} \left( \frac{E^\prime}{E} \right)^2 \left[ \frac{E^\prime}{E} + \frac{E}{E^\prime} - \sin \left( \theta \right)^2 \right].
+.. math:: \frac{\mathrm{d} \sigma_\mathrm{Compton, unpolarized}}{\mathrm{d}\Omega} (E, \Omega) = \frac{\int_0^{2\pi} \frac{\mathrm{d} \sigma_\mathrm{Compton}}{\mathrm{d}\Omega} (E, \Omega) \mathrm{d} \varphi}{\int_0^{2\pi} \mathrm{d} \varphi} = \frac{1}{2}\frac{\alpha^2 \hbar^2}{m^2 c^2} \left( \frac{E^\prime}{E} \right)^2 \left[ \frac{E^\prime}{E} + \frac{E}{E^\prime} - \sin \left( \theta \right)^2 \right].
 
 An integration of either :math:`\mathrm{d} \sigma_\mathrm{Compton} / \mathrm{d} \Omega` or
 :math:`\mathrm{d} \sigma_\mathrm{Compton, unpolarized} / \mathrm{d} \Omega` over the azimuthal
@@ -236,7 +236,7 @@ class KleinNishina(Nonresonant):
 
         relative_energy_change = self.Ep_over_E(E, theta)
         return (
-            np.pi
+            0.5
             * self.scale_factor
             * relative_energy_change
             * relative_energy_change
@@ -279,7 +279,9 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, energy-differential cross section in :math:`\mathrm{fm}^2 \mathrm{MeV}^{-1}`.
         """
         return (
-            self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
+            2.0
+            * np.pi
+            * self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
             * physical_constants["electron mass energy equivalent in MeV"][0]
             / (Ep * Ep)
         )
@@ -297,7 +299,9 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, scattering-angle differential cross section in :math:`\mathrm{fm}^2`.
         """
 
-        return self.cs_diff_dOmega_unpolarized(E, theta) * np.sin(theta)
+        return (
+            2.0 * np.pi * self.cs_diff_dOmega_unpolarized(E, theta) * np.sin(theta)
+        )
 
     def cs_total(self, E):
         r"""Total cross section
-- 
2.43.0


From 310734d5a744309a9a8a8bbc0c98d5d4571931cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:54:29 +0000
Subject: [PATCH 13/16] fix: use the mass of the scattering particle in the
 Compton kinematics

Only the total cross section used the mass given by the user. The Compton
edge and the differential cross sections always used the electron mass and
were inconsistent with the total cross section for other particles.
---
 ries/nonresonant/klein_nishina.py | 38 ++++++++++++++-----------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index d2e28f7..5c14cd7 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -153,47 +153,43 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, energy of the Compton edge in MeV.
         """
 
-        return self.Ep_over_E(E, np.pi) * E
+        return self.Ep_over_E(E, np.pi, self.mc2) * E
 
     @staticmethod
-    def theta(E, Ep):
+    def theta(
+        E, Ep, mc2=physical_constants["electron mass energy equivalent in MeV"][0]
+    ):
         """Scattering angle for a given scattered energy
 
         Parameters:
 
         - E: array_like or scalar, initial energy of the photon in MeV.
         - Ep: array_like or scalar, energy of the photon after the scattering process in MeV.
+        - mc2: float, mass energy equivalent of the charged particle in MeV (default: electron).
 
         Returns
 
         - array_like or scalar, scattering angle of the photon in radians.
         """
-        return np.arccos(
-            1
-            - (E / Ep - 1)
-            * physical_constants["electron mass energy equivalent in MeV"][0]
-            / E
-        )
+        return np.arccos(1 - (E / Ep - 1) * mc2 / E)
 
     @staticmethod
-    def Ep_over_E(E, theta):
+    def Ep_over_E(
+        E, theta, mc2=physical_constants["electron mass energy equivalent in MeV"][0]
+    ):
         """Ratio of final and initial photon energy for a given scattering angle
 
         Parameters:
 
         - E: array_like or scalar, initial energy of the photon in MeV.
         - theta: array_like or scalar, scattering angle of the photon in radians.
+        - mc2: float, mass energy equivalent of the charged particle in MeV (default: electron).
 
         Returns:
 
         - array_like or scalar, ratio of the energy of the scattered photon and its initial energy.
         """
-        return 1.0 / (
-            1.0
-            + E
-            / physical_constants["electron mass energy equivalent in MeV"][0]
-            * (1.0 - np.cos(theta))
-        )
+        return 1.0 / (1.0 + E / mc2 * (1.0 - np.cos(theta)))
 
     def cs_diff_dOmega(self, E, theta, phi):
         """Differential cross section w.r.t. the solid-angle
@@ -208,7 +204,7 @@ class KleinNishina(Nonresonant):
 
         - array_like or scalar, solid-angle differential cross section in fm**2.
         """
-        relative_energy_change = self.Ep_over_E(E, theta)
+        relative_energy_change = self.Ep_over_E(E, theta, self.mc2)
         return (
             0.5
             * self.scale_factor
@@ -234,7 +230,7 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, solid-angle differential cross section in fm**2.
         """
 
-        relative_energy_change = self.Ep_over_E(E, theta)
+        relative_energy_change = self.Ep_over_E(E, theta, self.mc2)
         return (
             0.5
             * self.scale_factor
@@ -261,8 +257,8 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, energy-differential cross section in :math:`\mathrm{fm}^2 \mathrm{MeV}^{-1}`.
         """
         return (
-            self.cs_diff_dOmega(E, self.theta(E, Ep), phi)
-            * physical_constants["electron mass energy equivalent in MeV"][0]
+            self.cs_diff_dOmega(E, self.theta(E, Ep, self.mc2), phi)
+            * self.mc2
             / (Ep * Ep)
         )
 
@@ -281,8 +277,8 @@ class KleinNishina(Nonresonant):
         return (
             2.0
             * np.pi
-            * self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
-            * physical_constants["electron mass energy equivalent in MeV"][0]
+            * self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep, self.mc2))
+            * self.mc2
             / (Ep * Ep)
         )
 
-- 
2.43.0


From c09f2080c530ce7c5a7c304f8ff8443f1f1e75c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:24 +0000
Subject: [PATCH 14/16] fix: avoid rounding errors of the Klein-Nishina cross
 section at low energies

The terms of the closed expression cancel up to the third order in the photon
energy. Below about 10 eV, the result exceeded the Thomson cross section, and
it was wrong by orders of magnitude below 1 eV. A series expansion is used for
small energies now.
---
 ries/nonresonant/klein_nishina.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index 5c14cd7..6d0d10d 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -311,12 +311,29 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, total cross section in :math:`\mathrm{fm}^2`.
         """
         x = E / self.mc2
+        # For small energies, the terms of the exact expression cancel each other up to the third
+        # order in x, which leads to large rounding errors. Use a series expansion instead.
+        x_series = 5e-3
+        y = np.maximum(x, x_series)
         return (
             np.pi
             * self.scale_factor
-            * x ** -3
-            * (
-                (2 * x * (2 + x * (1 + x) * (8 + x))) / ((1 + 2 * x) ** 2)
-                + ((x - 2) * x - 2) * np.log(1 + 2 * x)
+            * np.where(
+                x < x_series,
+                8
+                / 3
+                * (
+                    1
+                    - 2 * x
+                    + 26 / 5 * x ** 2
+                    - 133 / 10 * x ** 3
+                    + 1144 / 35 * x ** 4
+                    - 544 / 7 * x ** 5
+                ),
+                y ** -3.0
+                * (
+                    (2 * y * (2 + y * (1 + y) * (8 + y))) / ((1 + 2 * y) ** 2)
+                    + ((y - 2) * y - 2) * np.log(1 + 2 * y)
+                ),
             )
         )
-- 
2.43.0


From d91b32183daf183b9397fe338307e593e04d9513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:47 +0000
Subject: [PATCH 15/16] fix: use the symbols of manganese and vanadium in the
 Debye temperature table

The table is keyed by element symbols, but manganese and vanadium were
listed as "Ma" and "Va", so a lookup with their symbols failed.
---
 ries/resonance/debye_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ries/resonance/debye_model.py b/ries/resonance/debye_model.py
index f0bcd91..a15684e 100644
--- a/ries/resonance/debye_model.py
+++ b/ries/resonance/debye_model.py
@@ -132,7 +132,7 @@ room_temperature_T_D = {
     "Li": 448.0,
     "Lu": 116.0,
     "Mg": 330.0,
-    "Ma": 363.0,
+    "Mn": 363.0,
     "Hg": 92.0,
     "Mo": 377.0,
     "Nd": 148.0,
@@ -172,7 +172,7 @@ room_temperature_T_D = {
     "Ti": 380.0,
     "W": 312.0,
     "U": 300.0,
-    "Va": 390.0,
+    "V": 390.0,
     "Xe": None,
     "Yb": None,
     "Y": 214.0,
-- 
2.43.0


From ec5bee1206f058e5db70744208eb995a4bb24e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:20 +0000
Subject: [PATCH 16/16] fix: Compton scattering angle at the kinematic limits
 is not a number due to rounding

---
 ries/nonresonant/klein_nishina.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index 6d0d10d..7e22b77 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -171,7 +171,14 @@ class KleinNishina(Nonresonant):
 
         - array_like or scalar, scattering angle of the photon in radians.
         """
-        return np.arccos(1 - (E / Ep - 1) * mc2 / E)
+        cos_theta = 1 - (E / Ep - 1) * mc2 / E
+        # At the limits of the kinematics, rounding may lead to |cos(theta)| > 1.
+        rounding = 8 * np.finfo(float).eps * (1 + mc2 / Ep)
+        return np.arccos(
+            np.where(
+                np.abs(cos_theta) < 1 + rounding, np.clip(cos_theta, -1, 1), cos_theta
+            )
+        )
 
     @staticmethod
     def Ep_over_E(
-- 
2.43.0

