From 33a7e68db6658961aec1d3ae0417b4cbc8b2bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 01/51] fix: bind each final state in
 TheoryDec.positron_spectrum_funcs

---
 hazma/theory/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hazma/theory/__init__.py b/hazma/theory/__init__.py
index 427e962..6c642cd 100644
--- a/hazma/theory/__init__.py
+++ b/hazma/theory/__init__.py
@@ -601,15 +601,17 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         widths = self.decay_widths()
         dndes_wrapped = {}
 
-        for fs, dnde in self._positron_spectrum_funcs().items():
-
+        def make_dnde_wrapped(fs, dnde):
             def dnde_wrapped(e_ps):
                 if widths[fs] > 0:
                     return dnde(e_ps)
                 else:
                     return np.zeros_like(e_ps)
 
-            dndes_wrapped[fs] = dnde_wrapped
+            return dnde_wrapped
+
+        for fs, dnde in self._positron_spectrum_funcs().items():
+            dndes_wrapped[fs] = make_dnde_wrapped(fs, dnde)
 
         return dndes_wrapped
 
-- 
2.43.0


From c16f826d9a5518b8ff3511f5810f3e2e2dd85553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 02/51] fix: FluxMeasurement no longer rescales the caller's
 flux array in place

---
 hazma/flux_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/flux_measurement.py b/hazma/flux_measurement.py
index 9347f28..42b6135 100644
--- a/hazma/flux_measurement.py
+++ b/hazma/flux_measurement.py
@@ -74,7 +74,7 @@ class FluxMeasurement:
         self._e_bins = 0.5 * (self.e_lows + self.e_highs)
 
         # E^2 dN/dE -> dN/dE
-        self.fluxes /= self._e_bins**power
+        self.fluxes = self.fluxes / self._e_bins**power
 
         # Compute upper and lower error bars
         self.upper_errors = self.upper_errors / self._e_bins**power - self.fluxes
-- 
2.43.0


From e3a0a053c7300329fdd50a11aec10187cb139cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 03/51] fix: CMB efficiency integrand returns a scalar, as quad
 requires

---
 hazma/theory/_theory_cmb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_cmb.py b/hazma/theory/_theory_cmb.py
index 854d1dd..9a07814 100644
--- a/hazma/theory/_theory_cmb.py
+++ b/hazma/theory/_theory_cmb.py
@@ -100,7 +100,8 @@ class TheoryCMB:
             # If RAMBO is not needed to compute the spectrum, this will give
             # much cleaner results.
             def integrand(e):
-                return e * spec_fn(e, e_cm) * f_eff_base(e)  # type: ignore
+                # The total spectrum of a single energy is a length-1 array.
+                return np.asarray(e * spec_fn(e, e_cm) * f_eff_base(e)).item()
 
             f_eff_dm = quad(integrand, e_min, e_cm / 2, epsabs=0, epsrel=1e-3)[0] / e_cm
 
-- 
2.43.0


From f7c02361ead0880d5926226c70d0d36bab219c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 04/51] fix: custom_constrain images have the shape of the
 parameter grid

---
 hazma/theory/_theory_constrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_constrain.py b/hazma/theory/_theory_constrain.py
index f2a1c4a..1b83df2 100644
--- a/hazma/theory/_theory_constrain.py
+++ b/hazma/theory/_theory_constrain.py
@@ -34,7 +34,7 @@ class TheoryConstrain:
 
         # Store the constraint images. Note that p1 and p2 must be swapped
         # so we can use Cartesian rather than matrix indexing.
-        imgs = {cn: np.zeros([n_rows, n_rows]) for cn in constraints.keys()}
+        imgs = {cn: np.zeros([n_rows, n_cols]) for cn in constraints.keys()}
 
         # Loop over the parameter grid
         for i in range(n_rows):
-- 
2.43.0


From f3b33058f844d30dac150ec93a16c5d51005edee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 05/51] fix: Rambo updates the scale-factor seed when cme or
 masses change

---
 hazma/phase_space/_rambo.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index 389e158..c0aa825 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -65,7 +65,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         self.__msqrd: Optional[SquaredMatrixElement] = msqrd
 
         self.__n = n
-        self.__xi0 = np.sqrt(1.0 - (np.sum(ms) / cme) ** 2)
+        self.__xi0 = self._compute_initial_scale_factor()
         self.__base_wgt = self._compute_base_weight()
 
         self.__rng = np.random.default_rng()
@@ -82,6 +82,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
     @cme.setter
     def cme(self, val) -> None:
         self.__cme = val
+        self.__xi0 = self._compute_initial_scale_factor()
         self.__base_wgt = self._compute_base_weight()
 
     @property
@@ -95,6 +96,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
     def masses(self, masses: npt.NDArray) -> None:
         self.__n = len(masses)
         self.__masses = np.array(masses).reshape((self.__n, 1))
+        self.__xi0 = self._compute_initial_scale_factor()
         self.__base_wgt = self._compute_base_weight()
 
     @property
@@ -104,6 +106,12 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         """
         return self.__msqrd
 
+    def _compute_initial_scale_factor(self) -> float:
+        """
+        Compute the starting point of the search for the momentum scale factor.
+        """
+        return np.sqrt(1.0 - (np.sum(self.__masses) / self.__cme) ** 2)
+
     def _compute_base_weight(self) -> float:
         """
         Compute the starting weight for each phase space point.
-- 
2.43.0


From 885af037f33011e55559f30e59034a3249c1cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 06/51] fix: Rambo distributions accumulate batches in floating
 point

---
 hazma/phase_space/_rambo.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index c0aa825..f60f3d0 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -589,9 +589,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         ebounds = energy_limits(self.cme, self.masses)  # type: ignore
         bins = [np.linspace(emin, emax, nbins + 1) for emin, emax in ebounds]
 
-        distributions = [
-            np.histogram(np.zeros(nbins, dtype=np.float64), bins=b)[0] for b in bins
-        ]
+        distributions = [np.zeros(nbins, dtype=np.float64) for _ in bins]
 
         if batch_size is not None and not batch_size == n:
             # Build up the distributions from batches
@@ -658,9 +656,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
 
         bins = [make_bins(pair) for pair in pairs]
 
-        distributions = [
-            np.histogram(np.zeros(nbins, dtype=np.float64), bins=b)[0] for b in bins
-        ]
+        distributions = [np.zeros(nbins, dtype=np.float64) for _ in bins]
 
         if batch_size is not None and not batch_size == n:
             # Build up the distributions from batches
-- 
2.43.0


From 9f7cbf4fc43a0fe529e8dc59baa141a80574e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 07/51] fix: flat squared matrix elements are one for arrays
 too

---
 hazma/phase_space/_three_body.py | 4 ++--
 hazma/phase_space/_two_body.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index e351d61..c02ecef 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -35,9 +35,9 @@ def _msqrd_flat(s, t):
         return 1.0
 
     if scalar_s:
-        return np.zeros_like(t)
+        return np.ones_like(t)
 
-    return np.zeros_like(s)
+    return np.ones_like(s)
 
 
 def _mandelstam_to_momenta(s, t, q: float, masses: Tuple[float, float, float]):
diff --git a/hazma/phase_space/_two_body.py b/hazma/phase_space/_two_body.py
index 4cbe51c..d3eafa6 100644
--- a/hazma/phase_space/_two_body.py
+++ b/hazma/phase_space/_two_body.py
@@ -16,7 +16,7 @@ def _msqrd_flat(z):
     if np.isscalar(z):
         return 1.0
 
-    return np.zeros_like(z)
+    return np.ones_like(z)
 
 
 class TwoBody(AbstractPhaseSpaceIntegrator):
-- 
2.43.0


From 652991ec8728796c49ecec5ef05f6157dc028df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 08/51] fix: ThreeBody.msqrd setter takes effect for momenta
 signatures

---
 hazma/phase_space/_three_body.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index c02ecef..f1880ce 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -176,8 +176,11 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
     @msqrd.setter
     def msqrd(self, fn) -> None:
         r"""Squared matrix element of the proccess."""
-        self.__msqrd = fn
-        self.__update_msqrd()
+        if self.__original_msqrd is not None:
+            self.__original_msqrd = fn
+            self.__update_msqrd()
+        else:
+            self.__msqrd = fn
 
     def __trapz(self, fn, a: float, b: float, npts: int):
         xs = np.linspace(a, b, npts)
-- 
2.43.0


From 7ee6e478182b1df7c1321a36ca9c0af9f75bc4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 09/51] fix: ThreeBody quadrature distributions have the
 requested number of bins

---
 hazma/phase_space/_three_body.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index f1880ce..6485aa8 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -564,7 +564,7 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
 
         dists = []
         for i, (emin, emax) in enumerate(elims):
-            ebins = np.linspace(emin, emax, nbins)
+            ebins = np.linspace(emin, emax, nbins + 1)
             es = 0.5 * (ebins[1:] + ebins[:-1])
 
             dwde = integral(es, i)
@@ -648,7 +648,7 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
             i = tuple({0, 1, 2}.symmetric_difference({j, k}))[0]
             m1 = masses[i]
 
-            mbins = np.linspace(mmin, mmax, nbins)
+            mbins = np.linspace(mmin, mmax, nbins + 1)
             ms = 0.5 * (mbins[1:] + mbins[:-1])
             es = (q**2 - ms**2 + m1**2) / (2 * q)
 
-- 
2.43.0


From 904a48e4fd1d39516ef0c07fda563af4a44ba3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 10/51] fix: temperature derivative of the equilibrium density
 of bosons

---
 hazma/relic_density/_thermal_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/relic_density/_thermal_functions.py b/hazma/relic_density/_thermal_functions.py
index f9d2760..e3f904c 100644
--- a/hazma/relic_density/_thermal_functions.py
+++ b/hazma/relic_density/_thermal_functions.py
@@ -240,7 +240,8 @@ def neq_deriv(
             if hasattr(Ts, "__len__")
             else np.array([1, 2, 3, 4, 5])
         )
-        dnbar = xs**2 * np.sum(eta**ns * k1(ns * xs), axis=0) / (2.0 * np.pi**2)
+        dnbar = -(xs**2) * np.sum(eta ** (ns + 1) * k1(ns * xs), axis=0)
+        dnbar = dnbar / (2.0 * np.pi**2)
         nbar = (
             xs**2
             * np.sum(eta ** (ns + 1) / ns * kn(2, ns * xs), axis=0)
-- 
2.43.0


From d40540a3f4bd9d4095a33b5f898b8d4a300b447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 11/51] fix: thermal cross section integrates up from threshold
 at every temperature

---
 hazma/relic_density/_thermal_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/relic_density/_thermal_functions.py b/hazma/relic_density/_thermal_functions.py
index e3f904c..8e8886a 100644
--- a/hazma/relic_density/_thermal_functions.py
+++ b/hazma/relic_density/_thermal_functions.py
@@ -479,8 +479,8 @@ def thermal_cross_section(x: float, model) -> float:
         * quad(
             thermal_cross_section_integrand,
             2.0,
-            50.0 / x,
+            2.0 + 50.0 / x,
             args=(x, model),
-            points=[2.0],
+            epsabs=0.0,
         )[0]
     )
-- 
2.43.0


From cfc23b69e2aa163b639ae8d6efa43f961624f0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 12/51] fix: refuse a title scope that ends in a newline

`$` matches before a trailing newline, so 'feat(a<newline>): x' passed the
^[a-z0-9-]+$ rule.
---
 scripts/agents/check_pr_title.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/agents/check_pr_title.py b/scripts/agents/check_pr_title.py
index 969309d..4440ace 100755
--- a/scripts/agents/check_pr_title.py
+++ b/scripts/agents/check_pr_title.py
@@ -93,7 +93,7 @@ def check(header: str) -> list[str]:
         if scope == "":
             violations.append("scope is empty; put a name inside the ()")
         else:
-            if not SCOPE_RE.match(scope):
+            if not SCOPE_RE.fullmatch(scope):
                 violations.append(
                     f'scope "{scope}" must match ^[a-z0-9-]+$ '
                     "(lowercase alphanumeric and hyphens)"
-- 
2.43.0


From b7e29045815ef95bce42c7b466f6484ed04d0ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 13/51] fix: galactic-centre background reports its exponential
 index

---
 hazma/gamma_ray_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/gamma_ray_parameters.py b/hazma/gamma_ray_parameters.py
index b1f7a20..2748689 100644
--- a/hazma/gamma_ray_parameters.py
+++ b/hazma/gamma_ray_parameters.py
@@ -1151,7 +1151,7 @@ class GalacticCenterBackgroundModel(ParametricBackgroundModel):
             "galactic_amplitude": self._galactic_amplitude,
             "galactic_power_law_index": self._galactic_power_law_index,
             "galactic_exponential_cutoff": self._galactic_exponential_cutoff,
-            "galactic_exponential_index": self._galactic_exponential_cutoff,
+            "galactic_exponential_index": self._galactic_exponential_index,
             "extra_galactic_amplitude": self._extra_galactic_amplitude,
             "extra_galactic_power_law_index": self._extra_galactic_power_law_index,
         }
-- 
2.43.0


From 5d1d44fba94ec6fbeb0e7af63f3c9172f7f0c4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 14/51] fix: sign of the GECCO background's power-law
 derivative

---
 hazma/gamma_ray_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/gamma_ray_parameters.py b/hazma/gamma_ray_parameters.py
index 2748689..02a7302 100644
--- a/hazma/gamma_ray_parameters.py
+++ b/hazma/gamma_ray_parameters.py
@@ -1324,6 +1324,6 @@ class GeccoBackgroundModel:
         alpha = self.power_law_index
 
         dn = energy ** (-alpha)
-        da = amp * energy ** (-alpha) * np.log(energy)
+        da = -amp * energy ** (-alpha) * np.log(energy)
 
         return {"amplitude": dn, "power_law_index": da}
-- 
2.43.0


From b9656f36a5694749437d0e2003603661c7b140a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 15/51] fix: targets without a J- or D-factor can be printed

---
 hazma/target_params.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hazma/target_params.py b/hazma/target_params.py
index b103d7d..dc24d36 100644
--- a/hazma/target_params.py
+++ b/hazma/target_params.py
@@ -22,4 +22,8 @@ class TargetParams:
         self.vx = vx
 
     def __repr__(self):
-        return f"TargetParams(J={self.J:.3e}, D={self.D:.3e}, dOmega={self.dOmega:.3e}, vx={self.vx:.3e})"
+        fields = ", ".join(
+            f"{name}={value}" if value is None else f"{name}={value:.3e}"
+            for name, value in vars(self).items()
+        )
+        return f"TargetParams({fields})"
-- 
2.43.0


From 2f04575bc07ea6855700e23aea1025ab4287deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 16/51] fix: convert_sigmav accepts the documented unit cm^3/s

---
 hazma/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/parameters.py b/hazma/parameters.py
index beba99d..4dadea8 100644
--- a/hazma/parameters.py
+++ b/hazma/parameters.py
@@ -370,7 +370,7 @@ def convert_sigmav(sv, target):
     # hbar^2 c^3 in units of MeV^2 cm^3 / s
     hbar2_c3 = (3.0e10) ** 3 * (6.58e-22) ** 2
 
-    if target == "cm^3 / s":
+    if target in ("cm^3/s", "cm^3 / s"):
         return sv * hbar2_c3
     elif target == "MeV^-2":
         return sv / hbar2_c3
-- 
2.43.0


From 7bbc6bf602b9fc3df5d670ac68d43471830c532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 17/51] fix: a refused PBH mass leaves the model as it was

---
 hazma/pbh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hazma/pbh.py b/hazma/pbh.py
index 9e85b7f..846df42 100644
--- a/hazma/pbh.py
+++ b/hazma/pbh.py
@@ -107,9 +107,8 @@ class PBH(TheoryDec):
 
     @mx.setter
     def mx(self, mx):
-        self._mx = mx
-
         idx = np.where(self._mxs == mx)[0][0]
+        self._mx = mx
         fn = interp1d(
             self._e_gams, self._d2n_dedt[:, idx], bounds_error=False, fill_value=0
         )
-- 
2.43.0


From 73f72f9e008cf2681db81656b1b8b26c1059e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 18/51] fix: composite constrainers do not share their default
 list

---
 hazma/limits/_abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/limits/_abstract.py b/hazma/limits/_abstract.py
index e34b811..6dbb171 100644
--- a/hazma/limits/_abstract.py
+++ b/hazma/limits/_abstract.py
@@ -45,8 +45,8 @@ class AbstractLimit(abc.ABC):
 
 
 class CompositeConstrainer(abc.ABC):
-    def __init__(self, constrainers=[]):
-        self._constrainers = constrainers
+    def __init__(self, constrainers=()):
+        self._constrainers = list(constrainers)
 
     def add_constrainer(self, constrainer):
         self._constrainers.append(constrainer)
-- 
2.43.0


From f64706f9dea32d8683094775fcfe37c5e8f11cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 19/51] fix: CMBLimit evaluates the deposition efficiency of
 the model

---
 hazma/limits/_cmb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hazma/limits/_cmb.py b/hazma/limits/_cmb.py
index b09db71..b0dede6 100644
--- a/hazma/limits/_cmb.py
+++ b/hazma/limits/_cmb.py
@@ -108,7 +108,7 @@ class CMBLimit(AbstractLimit):
         <sigma v> : float
             Upper bound on <sigma v>, in cm^3 s^-1.
         """
-        return self.p_ann * model.mx / self.f_eff(self.x_kd)  # type: ignore
+        return self.p_ann * model.mx / self.f_eff(model)  # type: ignore
 
     def _f_eff_helper(self, model, fs, mode="quad"):
         """Computes f_eff^gg or f_eff^ep for DM annihilation.
@@ -131,7 +131,7 @@ class CMBLimit(AbstractLimit):
             f_eff for photons or electrons and positrons.
         """
         # Center of mass energy
-        vx = self.vx_cmb(model.mx, self.x_kd) ** 2
+        vx = self.vx_cmb(model.mx, self.x_kd)
         e_cm = 2.0 * model.mx * (1.0 + 0.5 * vx**2)
 
         if fs == "g g":
@@ -171,7 +171,8 @@ class CMBLimit(AbstractLimit):
             # If RAMBO is not needed to compute the spectrum, this will give
             # much cleaner results.
             def integrand(e):
-                return e * spec_fn(e, e_cm) * f_eff_base(e)  # type: ignore
+                # The total spectrum of a single energy is a length-1 array.
+                return np.asarray(e * spec_fn(e, e_cm) * f_eff_base(e)).item()  # type: ignore
 
             f_eff_dm = quad(integrand, e_min, e_cm / 2, epsabs=0, epsrel=1e-3)[0] / e_cm
 
-- 
2.43.0


From 16beabc31bd4fd572e0c76426da56a94ebd7f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 20/51] fix: RelicDensityLimit uses the requested root finder

---
 hazma/limits/_relic_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/limits/_relic_density.py b/hazma/limits/_relic_density.py
index 6b0f1bc..f3ac1d0 100644
--- a/hazma/limits/_relic_density.py
+++ b/hazma/limits/_relic_density.py
@@ -81,7 +81,7 @@ class RelicDensityLimit(AbstractLimit):
 
         try:
             root: optimize.RootResults = optimize.root_scalar(
-                f, bracket=[lb, ub], method="brentq"
+                f, bracket=[lb, ub], method=self.method
             )
             if not root.converged:
                 warnings.warn(f"root_scalar did not converge. Flag: {root.flag}")
-- 
2.43.0


From ad9a0b90145b9ed1efe48f3b41fb4198a2bab320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 21/51] fix: PBH lists its decay final states under the name
 the theory interface uses

---
 hazma/pbh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/pbh.py b/hazma/pbh.py
index 846df42..f950fa3 100644
--- a/hazma/pbh.py
+++ b/hazma/pbh.py
@@ -116,7 +116,7 @@ class PBH(TheoryDec):
         self._spectrum_funcs = lambda: {"all": fn}
 
     @staticmethod
-    def list_final_decay_states():
+    def list_decay_final_states():
         return ["all"]
 
     def _decay_widths(self):
-- 
2.43.0


From 16006c369d8b91ac8fe98f0be2299cfa3d458670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 22/51] fix: background derivatives with respect to a zero
 amplitude were NaN

---
 hazma/gamma_ray_parameters.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hazma/gamma_ray_parameters.py b/hazma/gamma_ray_parameters.py
index 02a7302..5d41f2d 100644
--- a/hazma/gamma_ray_parameters.py
+++ b/hazma/gamma_ray_parameters.py
@@ -1205,15 +1205,16 @@ class GalacticCenterBackgroundModel(ParametricBackgroundModel):
         alpha_eg = self.extra_galactic_power_law_index
 
         eec = energy / ec
-        f_g = amp_g * energy ** (-alpha_g) * np.exp(-((eec) ** gamma))
-        f_eg = amp_eg * energy ** (-alpha_eg)
+        # Not flux over amplitude: an amplitude may be zero
+        dn_g = energy ** (-alpha_g) * np.exp(-((eec) ** gamma))
+        f_g = amp_g * dn_g
+        dn_eg = energy ** (-alpha_eg)
+        f_eg = amp_eg * dn_eg
 
-        dn_g = f_g / amp_g
         da_g = -f_g * np.log(energy)
         dg_g = -f_g * np.log(eec) * eec**gamma
         dec_g = f_g * (eec**gamma) * gamma / ec
 
-        dn_eg = f_eg / amp_eg
         da_eg = -f_eg * np.log(energy)
 
         return {
-- 
2.43.0


From 55b65a8c684d46ce1aea77aa1ca32a9bc990d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 23/51] fix: boosted spectra at integer energies are not
 truncated to integers

---
 hazma/spectra/boost.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index d0f5fdd..7d8b5e5 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -109,7 +109,7 @@ def boost_delta_function(product_energy, e0: float, m: float, beta: float):
         Boost velocity of the decaying particle
     """
     scalar = np.isscalar(product_energy)
-    e = np.atleast_1d(product_energy)
+    e = np.atleast_1d(np.asarray(product_energy, dtype=float))
     dnde = np.zeros_like(e)
 
     if 0.0 < beta < 1.0:
@@ -149,7 +149,7 @@ def double_boost_delta_function(
         1st and 2nd boost velocities of the decaying particle.
     """
     scalar = np.isscalar(product_energy)
-    e2 = np.atleast_1d(product_energy)
+    e2 = np.atleast_1d(np.asarray(product_energy, dtype=float))
     dnde = np.zeros_like(e2)
 
     gamma1 = 1.0 / np.sqrt(1.0 - beta1**2)
@@ -214,7 +214,9 @@ def dnde_boost_array(dnde, energies, beta: float, mass: float = 0.0):
 
     gamma = 1.0 / np.sqrt(1 - beta**2)
 
-    boosted = np.zeros_like(energies)
+    energies = np.asarray(energies)
+    dnde = np.asarray(dnde)
+    boosted = np.zeros(np.shape(energies))
     mask = energies > mass
     es = energies[mask]
     k = np.sqrt(es**2 - mass**2)
@@ -350,6 +352,7 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
         arguments compatible with quad can be specified.
         """
         check_method(method)
+        energies = np.asarray(energies, dtype=float)
         early = kinematic_early_return(energies, beta)
         if early is not None:
             return early
-- 
2.43.0


From 876a47509b0147da360c859d5415fa94454df1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 24/51] fix: doubly boosted massive line is normalised by its
 momentum

---
 hazma/spectra/boost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index 7d8b5e5..fbbfb8f 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -174,7 +174,7 @@ def double_boost_delta_function(
         pre = 1.0
 
     dnde[mask] = pre * np.log(num / den)
-    dnde /= 4.0 * gamma1 * gamma2 * beta1 * beta2 * e0
+    dnde /= 4.0 * gamma1 * gamma2 * beta1 * beta2 * np.sqrt(e0**2 - m**2)
 
     if scalar:
         return dnde[0]
-- 
2.43.0


From 3e4f04f7dcba91a88088813807d80fcbd103a483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 25/51] fix: boosts with negative or unit velocity give zero

---
 hazma/spectra/boost.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index fbbfb8f..aadbed7 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -206,12 +206,12 @@ def dnde_boost_array(dnde, energies, beta: float, mass: float = 0.0):
     dnde_boosted: array
         The boosted spectrum.
     """
+    if beta < 0 or beta >= 1.0:
+        return np.zeros(np.shape(energies))
+
     if beta < np.finfo(float).eps:
         return dnde
 
-    if beta < 0 or beta > 1.0:
-        return np.zeros_like(energies)
-
     gamma = 1.0 / np.sqrt(1 - beta**2)
 
     energies = np.asarray(energies)
@@ -283,15 +283,15 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
         # The function will return something if we should return early due to
         # kinematic constraints. The constraints are:
         #   1. beta ~ 0: In rest frame => no boost
-        #   2. beta > 1 or beta < 0: Unphysical.
-
-        if beta < np.finfo(energies.dtype).eps:
-            return fn(energies)
+        #   2. beta >= 1 or beta < 0: Unphysical.
 
-        if beta < 0.0 or beta > 1.0:
+        if beta < 0.0 or beta >= 1.0:
             warnings.warn(f"Unphysical beta = {beta}. Returning zero.")
             return np.zeros_like(energies)
 
+        if beta < np.finfo(energies.dtype).eps:
+            return fn(energies)
+
         return None
 
     def bounds_and_mask(energies: RealArray, gamma: float, beta: float):
-- 
2.43.0


From 1a5ecf488096f41eb94f8baf2d02418a3ddfb512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 26/51] fix: boost at rest passes the extra arguments to the
 spectrum

---
 hazma/spectra/boost.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index aadbed7..ad8b1c1 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -279,7 +279,7 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
     """
     methods = ["quad", "trapz", "simps", "quadrature"]
 
-    def kinematic_early_return(energies: RealArray, beta: float):
+    def kinematic_early_return(energies: RealArray, beta: float, args: Tuple):
         # The function will return something if we should return early due to
         # kinematic constraints. The constraints are:
         #   1. beta ~ 0: In rest frame => no boost
@@ -290,7 +290,7 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
             return np.zeros_like(energies)
 
         if beta < np.finfo(energies.dtype).eps:
-            return fn(energies)
+            return fn(energies, *args)
 
         return None
 
@@ -353,7 +353,7 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
         """
         check_method(method)
         energies = np.asarray(energies, dtype=float)
-        early = kinematic_early_return(energies, beta)
+        early = kinematic_early_return(energies, beta, args)
         if early is not None:
             return early
 
-- 
2.43.0


From c9313861a0f07dd1a8ab5b074ddaf2d54dc26df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 27/51] fix: boosted spectrum is zero when every energy is
 below the mass

---
 hazma/spectra/boost.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index ad8b1c1..1674d37 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -360,6 +360,8 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
         gamma = 1.0 / np.sqrt(1.0 - beta**2)
         boosted = np.zeros_like(energies)
         emin, emax, mask = bounds_and_mask(energies=energies, gamma=gamma, beta=beta)
+        if not np.any(mask):
+            return boosted
 
         integrand = make_integrand(*args)
         integrator = _make_integrator(method, vectorized, **kwargs)
-- 
2.43.0


From a985e69c319c835378f55841652ef3ab9d2f0c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 28/51] fix: Altarelli-Parisi spectra accept scalars and lists

---
 hazma/spectra/altarelli_parisi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/altarelli_parisi.py b/hazma/spectra/altarelli_parisi.py
index ed5317b..7d1a096 100644
--- a/hazma/spectra/altarelli_parisi.py
+++ b/hazma/spectra/altarelli_parisi.py
@@ -28,7 +28,8 @@ def _fermion_splitting(x):
 
 def _dndx_photon_fsr(x, s: float, m: float, split: Callable[[Any], Any], q=1.0):
     pre = q**2 * parameters.alpha_em / (2.0 * np.pi)
-    xm = 1.0 - x
+    x = np.asarray(x, dtype=float)
+    xm = np.asarray(1.0 - x)
     kernel = np.zeros_like(x)
 
     mask = s * xm / m**2 > np.e
@@ -39,7 +40,7 @@ def _dndx_photon_fsr(x, s: float, m: float, split: Callable[[Any], Any], q=1.0):
 
 def _dnde_photon_fsr(e, s: float, m: float, split: Callable[[Any], Any], q=1.0):
     e_to_x = 2.0 / np.sqrt(s)
-    x = e * e_to_x
+    x = np.asarray(e) * e_to_x
     return _dndx_photon_fsr(x, s, m, split, q) * e_to_x
 
 
-- 
2.43.0


From 4e04b0f2e9c6ee8b2591b37fce39aa35662b8dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 29/51] fix: vectorized marginal spectra no longer always raise

---
 hazma/spectra/convolve.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hazma/spectra/convolve.py b/hazma/spectra/convolve.py
index 917029b..a927dd4 100644
--- a/hazma/spectra/convolve.py
+++ b/hazma/spectra/convolve.py
@@ -59,11 +59,13 @@ def make_marginal_fn(
     probs_ = np.expand_dims(np.array(probs), 1)
 
     if vectorized:
-        excluded = (0,) + tuple([i + 2 for i in range(len(args))])
+        # One row of values over all the product energies per cme.
+        def integrand(es, cmes, *args):
+            return np.array([dnde_fn(np.ravel(es), cme, *args) for cme in np.ravel(cmes)])
+
     else:
         excluded = tuple([i + 2 for i in range(len(args))])
-
-    integrand = np.vectorize(dnde_fn, excluded=excluded)
+        integrand = np.vectorize(dnde_fn, excluded=excluded)
 
     if method == "trapz":
         integrator = np.trapezoid
-- 
2.43.0


From 9e96a9b50256f34643f4c196cd32ec7725ec2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 30/51] fix: neutral rhos in a final state give positrons and
 neutrinos

---
 hazma/spectra/_nbody.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 17ad1c4..f108e24 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -96,7 +96,7 @@ _dnde_positron_dict: Dict[str, Callable[[RealArray, float], RealArray]] = {
     "eta": _positron.dnde_positron_eta,
     "etap": _positron.dnde_positron_eta_prime,
     "rho": _positron.dnde_positron_charged_rho,
-    "rho0": _dnde_zero,
+    "rho0": _positron.dnde_positron_neutral_rho,
     "omega": _positron.dnde_positron_omega,
     "phi": _positron.dnde_positron_phi,
 }
@@ -115,7 +115,7 @@ _dnde_neutrino_dict = {
     "eta": _neutrino.dnde_neutrino_eta,
     "etap": _neutrino.dnde_neutrino_eta_prime,
     "rho": _neutrino.dnde_neutrino_charged_rho,
-    "rho0": _dnde_zero_nu,
+    "rho0": _neutrino.dnde_neutrino_neutral_rho,
     "omega": _neutrino.dnde_neutrino_omega,
     "phi": _neutrino.dnde_neutrino_phi,
 }
-- 
2.43.0


From fa049a802d0be4bdb7302b2319e3ebf6b4be2679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 31/51] fix: final-state neutrinos only count in the row of
 their own flavor

---
 hazma/spectra/_nbody.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index f108e24..5c768dc 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -500,13 +500,18 @@ def _dnde_multi_particle(
         cond = cond or (state == "e" and product == "positron")
         cond = cond or (state in ["ve", "vm", "vt"] and product == "neutrino")
         if cond:
-            dnde += np.interp(
+            direct = np.interp(
                 product_energies,
                 dist.bin_centers,
                 dist.probabilities,
                 right=0.0,
                 left=0.0,
             )
+            if product == "neutrino":
+                # Only the row of the neutrino's own flavor.
+                dnde[["ve", "vm", "vt"].index(state)] += direct
+            else:
+                dnde += direct
 
     if product == "photon" and include_fsr:
         dnde = dnde + _dnde_photon_fsr(
-- 
2.43.0


From f27ad8fa4a9dabe9e0d99909c939b3f2188bcc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 32/51] fix: identical charged particles in a final state each
 radiate

---
 hazma/spectra/_nbody.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 5c768dc..37c0d2f 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -364,26 +364,27 @@ def _dnde_photon_fsr(
         # particles, we might have keys like: (0,1), (0,2), (1,2). In this case,
         # we would be computing each spectrum twice. We thus need to average the
         # spectra. If 'average_fsr' is False, the we will skip terms computing
-        # the same spectrum.
+        # the same spectrum. Particles are told apart by their position: two
+        # particles of the same species both radiate.
         counts = defaultdict(int)
         dndes = {
-            key: np.zeros_like(photon_energies)
-            for key in final_states
-            if key in dnde_fns
+            p: np.zeros_like(photon_energies)
+            for p, s in enumerate(final_states)
+            if s in dnde_fns
         }
 
         for pair, dist in dists.items():
-            for s in [final_states[p] for p in pair]:
+            for p in pair:
                 # Skip neutral particles
-                if s not in dndes:
+                if p not in dndes:
                     continue
 
                 # If average_fsr is False and we've already encountered this
                 # particle, skip it.
-                if average_fsr or counts[s] == 0:
-                    counts[s] += 1
-                    dndes[s] = dndes[s] + _conv_dnde_dist(
-                        photon_energies, dist, s, "fsr"
+                if average_fsr or counts[p] == 0:
+                    counts[p] += 1
+                    dndes[p] = dndes[p] + _conv_dnde_dist(
+                        photon_energies, dist, final_states[p], "fsr"
                     )
 
         for key in dndes.keys():
-- 
2.43.0


From 534c3aeb54298bcb0c1bf495a511c0fc8d44da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 33/51] fix: single-channel lines were nested dictionaries and
 ignored photons

---
 hazma/single_channel.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/hazma/single_channel.py b/hazma/single_channel.py
index 0c213f0..a433871 100644
--- a/hazma/single_channel.py
+++ b/hazma/single_channel.py
@@ -94,12 +94,10 @@ class SingleChannelAnn(TheoryAnn):
                 (e_cm**2 - m1**2 + m2**2) / (2 * e_cm),
             ]
 
-            if s1 == "g" and s2 == "g":
-                lines[self.fs] = {"g g": energies[0]}
-            elif s1 == "g":
-                lines[self.fs] = {"g g": energies[0]}
-            elif s2 == "g":
-                lines[self.fs] = {"g g": energies[1]}
+            if s1 in ("a", "photon"):
+                lines[self.fs] = energies[0]
+            elif s2 in ("a", "photon"):
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -117,9 +115,9 @@ class SingleChannelAnn(TheoryAnn):
             ]
 
             if s1 == "e":
-                lines[self.fs] = {self.fs: energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "e":
-                lines[self.fs] = {self.fs: energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -208,12 +206,10 @@ class SingleChannelDec(TheoryDec):
                 (mx**2 - m1**2 + m2**2) / (2 * mx),
             ]
 
-            if s1 == "g" and s2 == "g":
-                lines[self.fs] = {"g g": energies[0]}
-            elif s1 == "g":
-                lines[self.fs] = {"g g": energies[0]}
-            elif s2 == "g":
-                lines[self.fs] = {"g g": energies[1]}
+            if s1 in ("a", "photon"):
+                lines[self.fs] = energies[0]
+            elif s2 in ("a", "photon"):
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -232,9 +228,9 @@ class SingleChannelDec(TheoryDec):
             ]
 
             if s1 == "e":
-                lines[self.fs] = {self.fs: energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "e":
-                lines[self.fs] = {self.fs: energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
-- 
2.43.0


From 39193f9943b93347d70c9630f9570477e8436b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 34/51] fix: changing a decaying model's final state kept the
 old particles

---
 hazma/single_channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hazma/single_channel.py b/hazma/single_channel.py
index a433871..1d6a3ff 100644
--- a/hazma/single_channel.py
+++ b/hazma/single_channel.py
@@ -154,6 +154,8 @@ class SingleChannelDec(TheoryDec):
     @fs.setter
     def fs(self, fs: str) -> None:
         self._fs = fs
+        self._final_states = fs.split(" ")
+        self._fs_masses = list(map(lambda s: sm_masses[s], self._final_states))
 
     @property
     def mx(self) -> float:
-- 
2.43.0


From 389f0b6cd73628624d625f7b1b86abb62516d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 35/51] fix: convolved two-photon lines lost one photon under
 the names a and photon

---
 hazma/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/parameters.py b/hazma/parameters.py
index 4dadea8..6a0e509 100644
--- a/hazma/parameters.py
+++ b/hazma/parameters.py
@@ -535,7 +535,7 @@ def convolved_spectrum_fn(
             dnde_conv += (
                 line["bf"]
                 * spec_res_fn(es, line["energy"], energy_res)
-                * (2.0 if ch == "g g" else 1.0)
+                * (2.0 if ch in ("g g", "a a", "photon photon") else 1.0)
             )
 
     return InterpolatedUnivariateSpline(es, dnde_conv, k=1, ext="raise")  # type: ignore
-- 
2.43.0


From 524b6cb40ce04ad62b9165fe090b4298df2b35a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 36/51] fix: two-photon lines counted once in f_eff under the
 names a and photon

---
 hazma/theory/_theory_cmb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_cmb.py b/hazma/theory/_theory_cmb.py
index 9a07814..2ab7194 100644
--- a/hazma/theory/_theory_cmb.py
+++ b/hazma/theory/_theory_cmb.py
@@ -70,10 +70,12 @@ class TheoryCMB:
         if fs == "g g":
             f_eff_base = f_eff_g
             lines = self.gamma_ray_lines(e_cm)  # type: ignore
+            pairs = ("g g", "a a", "photon photon")
             spec_fn = self.total_spectrum  # type: ignore
         elif fs == "e e":
             f_eff_base = f_eff_ep
             lines = self.positron_lines(e_cm)  # type: ignore
+            pairs = ("e e",)
 
             def spec_fn(es, e_cm):
                 return 2.0 * self.total_positron_spectrum(es, e_cm)  # type: ignore
@@ -113,7 +115,7 @@ class TheoryCMB:
             # Make sure the base f_eff is defined at this energy
             if energy > e_min:
                 bf = line["bf"]
-                multiplicity = 2.0 if ch == fs else 1.0
+                multiplicity = 2.0 if ch in pairs else 1.0  # type: ignore
                 f_eff_line_dm += (
                     energy
                     * bf
-- 
2.43.0


From 1d7397b11962c16ee86098ca215361c19f8fe3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 37/51] fix: spectra of closed channels failed for lists and
 non-float numbers

---
 hazma/theory/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/theory/__init__.py b/hazma/theory/__init__.py
index 6c642cd..3f39061 100644
--- a/hazma/theory/__init__.py
+++ b/hazma/theory/__init__.py
@@ -178,10 +178,10 @@ class TheoryAnn(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
             if bfs[fs] != 0:
                 specs[fs] = bfs[fs] * dnde_func(e_gams, e_cm)
             else:
-                if type(e_gams) == float:
+                if np.isscalar(e_gams):
                     specs[fs] = 0
                 else:
-                    specs[fs] = np.zeros(e_gams.shape)
+                    specs[fs] = np.zeros(np.shape(e_gams))
 
         specs["total"] = sum(specs.values())
 
-- 
2.43.0


From 55e78288c9fe279dfc272032e439ba6ad28d9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 38/51] fix: right-handed neutrino flavor setter misnamed
 neutrinos, mixed tau with the muon

---
 hazma/rh_neutrino/_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 8bc732c..6239098 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -106,10 +106,10 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
             self._vstr = "ve"
         elif val == "mu":
             self.__gen = Generation.Snd
-            self._vstr = "vmu"
+            self._vstr = "vm"
         elif val == "tau":
-            self.__gen = Generation.Snd
-            self._vstr = "vmu"
+            self.__gen = Generation.Trd
+            self._vstr = "vt"
         else:
             raise ValueError(f"Invalid lepton {val}. Use 'e', 'mu', or 'tau'")
 
-- 
2.43.0


From 3033d5916bf6e252a21024c69125629791a4bb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 39/51] fix: spectra of charged right-handed-neutrino channels
 were doubled twice

---
 hazma/rh_neutrino/_model.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 6239098..bdbf258 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -195,20 +195,12 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         Gets a function taking a photon energy and returning the continuum
         gamma ray spectrum dN/dE for each relevant decay final state.
         """
-        ispositron = product == "positron"
-        conjfactor = 1.0 if ispositron else 2.0
-
-        def pre(self_conjugate):
-            return 1.0 if self_conjugate else conjfactor
-
         def mk_dnde(key):
             dnde = self._config[key].dnde
-            self_conjugate = self._config[key].self_conjugate
 
+            # Charge-conjugate decays are accounted for in the widths.
             def new_dnde(energies, **kwargs):
-                return pre(self_conjugate) * dnde(
-                    product_energies=energies, product=product, **kwargs
-                )
+                return dnde(product_energies=energies, product=product, **kwargs)
 
             return new_dnde
 
-- 
2.43.0


From 06f6c0bbaa724ef3b026eb3295197c2351f584f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 40/51] fix: right-handed neutrino photon line had a name no
 channel has

---
 hazma/rh_neutrino/_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index bdbf258..72ad96c 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -218,7 +218,7 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         Returns dict of final states and photon energies for final states
         containing monochromatic gamma ray lines.
         """
-        return {"nu g": self.mx / 2.0}
+        return {f"{self._vstr} a": self.mx / 2.0}
 
     def _positron_spectrum_funcs(self) -> Dict[str, Callable]:
         """
-- 
2.43.0


From b102310ded51fbb789c91a1b39e9ef262fa1ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 41/51] fix: right-handed neutrino positron lines had names no
 channel has

---
 hazma/rh_neutrino/_model.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 72ad96c..a975987 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -228,14 +228,13 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         return self.__spectrum_funcs("positron")
 
     def _positron_line_energies(self) -> Dict[str, float]:
-        if self.flavor == "e":
-            return {
-                "pi l": (self.mx**2 + self.ml**2 - sm_masses["pi"] ** 2)
-                / (2.0 * self.mx),
-                "k l": (self.mx**2 + self.ml**2 - sm_masses["k"] ** 2)
-                / (2.0 * self.mx),
-            }
-        return {}
+        if self.flavor != "e":
+            return {}
+        return {
+            f"e {h}": (self.mx**2 + self.ml**2 - sm_masses[h] ** 2) / (2.0 * self.mx)
+            for h in ["pi", "k"]
+            if self.mx > self.ml + sm_masses[h]
+        }
 
     def _neutrino_spectrum_funcs(self) -> Dict[str, Callable]:
         """
-- 
2.43.0


From b2fc9ae24e0ce0076a7ddc506d392fe06e9bf546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 42/51] fix: right-handed neutrino eta line replaced the pion's

---
 hazma/rh_neutrino/_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index a975987..d682473 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -252,7 +252,7 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
             lines[f"{vv} pi0"] = (mx**2 - sm_masses["pi0"] ** 2) / (2.0 * mx)
 
         if self.mx > sm_masses["eta"]:
-            lines[f"{vv} pi0"] = (mx**2 - sm_masses["eta"] ** 2) / (2.0 * mx)
+            lines[f"{vv} eta"] = (mx**2 - sm_masses["eta"] ** 2) / (2.0 * mx)
 
         lines[f"{vv} a"] = 0.5 * mx
         return lines
-- 
2.43.0


From 9da512b55bdb21a27a83658690e4be9f8fa481a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 43/51] fix: right-handed neutrino eta channel used the pion's
 spectrum

---
 hazma/rh_neutrino/_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_spectra.py b/hazma/rh_neutrino/_spectra.py
index fcbb8e8..433959f 100644
--- a/hazma/rh_neutrino/_spectra.py
+++ b/hazma/rh_neutrino/_spectra.py
@@ -153,7 +153,7 @@ def dnde_v_eta(model: SingleRhNeutrinoModel, product_energies, product: str):
         Differential energy spectrum evaluated at the input energies.
     """
     nu = _NEUTRINO_STRS[model.gen]
-    return _dnde_two_body(model, product_energies, product, (nu, "pi0"))
+    return _dnde_two_body(model, product_energies, product, (nu, "eta"))
 
 
 def dnde_v_rho(model: SingleRhNeutrinoModel, product_energies, product: str):
-- 
2.43.0


From 9ee5685c5913c7cab1274021f31d9e6e81928e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 44/51] fix: right-handed neutrino rho channel used the kaon's
 spectrum

---
 hazma/rh_neutrino/_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_spectra.py b/hazma/rh_neutrino/_spectra.py
index 433959f..c2e95e9 100644
--- a/hazma/rh_neutrino/_spectra.py
+++ b/hazma/rh_neutrino/_spectra.py
@@ -299,7 +299,7 @@ def dnde_l_rho(model: SingleRhNeutrinoModel, product_energies, product: str):
         Differential energy spectrum evaluated at the input energies.
     """
     ell = _LEPTON_STRS[model.gen]
-    return _dnde_two_body(model, product_energies, product, (ell, "k"))
+    return _dnde_two_body(model, product_energies, product, (ell, "rho"))
 
 
 def dnde_v_l_l(
-- 
2.43.0


From 3c36e9dd3bed0900e43a34a5394ea0598b24201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 45/51] fix: decay_width of a single final state read the name
 letter by letter

---
 hazma/rh_neutrino/_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index d682473..41a6399 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -176,6 +176,8 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         KeyError
             If one of the final states doesn't exist, a KeyError is raised.
         """
+        if isinstance(final_states, str):
+            final_states = [final_states]
         return {fs: self._decay_width(fs) for fs in final_states}
 
     def decay_widths(self) -> Dict[str, float]:
-- 
2.43.0


From 837517bdd6de1b434b2ce2fd953726b4eb8c7057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 46/51] fix: squared matrix element of mixed-flavour lepton
 channels

---
 hazma/rh_neutrino/_spectra.py | 4 ++++
 hazma/rh_neutrino/_widths.py  | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hazma/rh_neutrino/_spectra.py b/hazma/rh_neutrino/_spectra.py
index c2e95e9..5565bc6 100644
--- a/hazma/rh_neutrino/_spectra.py
+++ b/hazma/rh_neutrino/_spectra.py
@@ -342,6 +342,10 @@ def dnde_v_l_l(
     """
     msqrd, _ = rhn_widths._make_msqrd_and_masses_v_l_l(model, genv, genl1, genl2)
 
+    # Match the ordering of the masses assumed by the squared matrix element.
+    if model.gen != genv and model.gen == genl1:
+        genl1, genl2 = genl2, genl1
+
     states = (_NEUTRINO_STRS[genv], _LEPTON_STRS[genl1], _LEPTON_STRS[genl2])
     logging.debug(f"dnde_v_l_l: states = {states}")
     return _dnde_three_body(
diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index df6f5ca..518c3e6 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -443,8 +443,8 @@ def _msqrd_l_u_d(s, t, model: SingleRhNeutrinoModel, mu, md, ml, ckm):
     return (
         16.0
         * GF**2
-        * (ml**2 + mx**2 - s - t)
-        * (s + t - mu**2 - md**2)
+        * (mx**2 + md**2 - t)
+        * (t - mu**2 - ml**2)
         * u**2
         * abs(ckm) ** 2
     )
-- 
2.43.0


From f2f4b3788dbd0481ad7ac4f5da79a651c8d2d27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 47/51] fix: three-neutrino squared matrix element linear in
 the mixing

---
 hazma/rh_neutrino/_widths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index 518c3e6..c9008e7 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -743,7 +743,7 @@ def msqrd_v_v_v(s, t, model: SingleRhNeutrinoModel, gen: Generation):
     mx = model.mx
     u = 0.5 * np.tan(2 * model.theta)
     pre = 2.0 if gen == model.gen else 1.0
-    return -pre * 16 * GF**2 * (s**2 + s * t + t**2 - mx**2 * (s + t)) * u
+    return -pre * 16 * GF**2 * (s**2 + s * t + t**2 - mx**2 * (s + t)) * u**2
 
 
 def energy_distributions_v_v_v(
-- 
2.43.0


From 743f01f9c94ad6f5ed36299e92ce9c83c2fc8056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:46 +0000
Subject: [PATCH 48/51] fix: vector-mediator positrons of two muons were the
 muons' photons

---
 hazma/vector_mediator/_vector_mediator_positron_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_vector_mediator_positron_spectra.py b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
index f961ec7..3a49d2e 100644
--- a/hazma/vector_mediator/_vector_mediator_positron_spectra.py
+++ b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
@@ -9,7 +9,7 @@ class VectorMediatorPositronSpectra:
         return spectra.dnde_positron_charged_pion(e_ps, e_cm / 2.0)
 
     def dnde_pos_mumu(self, e_ps, e_cm):
-        return spectra.dnde_photon_muon(e_ps, e_cm / 2.0)
+        return spectra.dnde_positron_muon(e_ps, e_cm / 2.0)
 
     # positron decay spectrum for chi chibar -> v v
     def dnde_pos_vv(self, e_ps, e_cm, fs="total"):
-- 
2.43.0


From 2c91504a6ed1dcc3b552cabf95e39b67df9a59a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:46 +0000
Subject: [PATCH 49/51] fix: self-scattering cross sections divided by the
 energy, not its square

---
 hazma/scalar_mediator/_scalar_mediator_cross_sections.py | 2 +-
 hazma/vector_mediator/_vector_mediator_cross_sections.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/scalar_mediator/_scalar_mediator_cross_sections.py b/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
index f7f143b..45bdceb 100644
--- a/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
+++ b/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
@@ -264,7 +264,7 @@ def sigma_xx_to_s_to_xx(self, e_cm):
         nodes, weights = leggauss(10)
         nodes, weights = (np.reshape(nodes, (10, 1)), np.reshape(weights, (10, 1)))
         ret_val = mask * np.nan_to_num(
-            np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms)
+            np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms**2)
         )
 
     return ret_val.real
diff --git a/hazma/vector_mediator/_vector_mediator_cross_sections.py b/hazma/vector_mediator/_vector_mediator_cross_sections.py
index ccaaf14..eef3a56 100644
--- a/hazma/vector_mediator/_vector_mediator_cross_sections.py
+++ b/hazma/vector_mediator/_vector_mediator_cross_sections.py
@@ -254,7 +254,7 @@ class VectorMediatorCrossSections:
             nodes, weights = leggauss(10)
             nodes, weights = (np.reshape(nodes, (10, 1)), np.reshape(weights, (10, 1)))
             ret_val = mask * np.nan_to_num(
-                np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms)
+                np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms**2)
             )
 
         return ret_val.real
-- 
2.43.0


From d540f40e8805fd7fe1d4615f4819c7c940a072b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:46 +0000
Subject: [PATCH 50/51] fix: self scattering through light mediators missed the
 forward peak

---
 hazma/scalar_mediator/_scalar_mediator_cross_sections.py | 9 +++++++--
 hazma/vector_mediator/_vector_mediator_cross_sections.py | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/hazma/scalar_mediator/_scalar_mediator_cross_sections.py b/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
index 45bdceb..940701d 100644
--- a/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
+++ b/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
@@ -261,8 +261,13 @@ def sigma_xx_to_s_to_xx(self, e_cm):
             ).real
 
         # Compute the nodes and weights for Legendre-Gauss quadrature
-        nodes, weights = leggauss(10)
-        nodes, weights = (np.reshape(nodes, (10, 1)), np.reshape(weights, (10, 1)))
+        nodes, weights = leggauss(20)
+        nodes, weights = (np.reshape(nodes, (20, 1)), np.reshape(weights, (20, 1)))
+        # Spread them evenly in log(t - m^2) to resolve the forward peak
+        d = 2 * rss**2 / np.where(mask, 1 - 4 * rxs**2, 1.0)
+        log = 0.5 * np.log1p(2 / d)
+        peak = d * np.exp(log * (1 + nodes))
+        nodes, weights = (1 + d - peak, weights * log * peak)
         ret_val = mask * np.nan_to_num(
             np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms**2)
         )
diff --git a/hazma/vector_mediator/_vector_mediator_cross_sections.py b/hazma/vector_mediator/_vector_mediator_cross_sections.py
index eef3a56..398e274 100644
--- a/hazma/vector_mediator/_vector_mediator_cross_sections.py
+++ b/hazma/vector_mediator/_vector_mediator_cross_sections.py
@@ -251,8 +251,13 @@ class VectorMediatorCrossSections:
                 )
 
             # Compute the nodes and weights for Legendre-Gauss quadrature
-            nodes, weights = leggauss(10)
-            nodes, weights = (np.reshape(nodes, (10, 1)), np.reshape(weights, (10, 1)))
+            nodes, weights = leggauss(20)
+            nodes, weights = (np.reshape(nodes, (20, 1)), np.reshape(weights, (20, 1)))
+            # Spread them evenly in log(t - m^2) to resolve the forward peak
+            d = 2 * rv**2 / np.where(mask, 1 - 4 * rx**2, 1.0)
+            log = 0.5 * np.log1p(2 / d)
+            peak = d * np.exp(log * (1 + nodes))
+            nodes, weights = (1 + d - peak, weights * log * peak)
             ret_val = mask * np.nan_to_num(
                 np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms**2)
             )
-- 
2.43.0


From 0019fd71ed0dc5c6602a90b12f25a152293bc9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 51/51] fix: mediator spectra without radiation or decay raised
 for one energy

---
 hazma/scalar_mediator/_scalar_mediator_spectra.py | 4 ++--
 hazma/vector_mediator/_vector_mediator_spectra.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazma/scalar_mediator/_scalar_mediator_spectra.py b/hazma/scalar_mediator/_scalar_mediator_spectra.py
index 648dffe..7cff306 100644
--- a/hazma/scalar_mediator/_scalar_mediator_spectra.py
+++ b/hazma/scalar_mediator/_scalar_mediator_spectra.py
@@ -17,7 +17,7 @@ def dnde_ee(self, e_gams, e_cm, spectrum_type="all"):
     elif spectrum_type == "fsr":
         return self.dnde_xx_to_s_to_ffg(e_gams, e_cm, me)
     elif spectrum_type == "decay":
-        return np.array([0.0 for _ in range(len(e_gams))])
+        return np.zeros_like(e_gams, dtype=float)
     else:
         raise ValueError("Type {} is invalid. Use 'all', 'fsr' or \
                             'decay'".format(spectrum_type))
@@ -43,7 +43,7 @@ def dnde_pi0pi0(self, e_gams, e_cm, spectrum_type="all"):
             e_gams, e_cm, "decay"
         )
     if spectrum_type == "fsr":
-        return np.array([0.0 for _ in range(len(e_gams))])
+        return np.zeros_like(e_gams, dtype=float)
     if spectrum_type == "decay":
         return 2.0 * spectra.dnde_photon_neutral_pion(e_gams, e_cm / 2.0)
     else:
diff --git a/hazma/vector_mediator/_vector_mediator_spectra.py b/hazma/vector_mediator/_vector_mediator_spectra.py
index 12bffc2..ca44237 100644
--- a/hazma/vector_mediator/_vector_mediator_spectra.py
+++ b/hazma/vector_mediator/_vector_mediator_spectra.py
@@ -21,7 +21,7 @@ class VectorMediatorSpectra:
         elif spectrum_type == "fsr":
             return fsr(e_gams, e_cm, "e")
         elif spectrum_type == "decay":
-            return np.array([0.0 for _ in range(len(e_gams))])
+            return np.zeros_like(e_gams, dtype=float)
         else:
             raise ValueError(
                 "Type {} is invalid. Use 'all', 'fsr' or 'decay'".format(spectrum_type)
@@ -51,7 +51,7 @@ class VectorMediatorSpectra:
                 e_gams, e_cm, "decay"
             )
         elif spectrum_type == "fsr":
-            return np.array([0.0 for _ in range(len(e_gams))])
+            return np.zeros_like(e_gams, dtype=float)
         elif spectrum_type == "decay":
             # Neutral pion's energy
             e_pi0 = (e_cm**2 + mpi0**2) / (2.0 * e_cm)
-- 
2.43.0

