From 3bcb42f364b97c650717b5572706ce8d0a1723cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 01/46] fix: band parameters equal to zero can be read back

---
 cuprates_transport/bandstructure.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 5e63a84..79dd81f 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -106,11 +106,9 @@ class BandStructure:
 
     def __getitem__(self, key):
         try:
-            assert self._band_params[key]
+            return self._band_params[key]
         except KeyError:
             print(key + " is not a defined band parameter")
-        else:
-            return self._band_params[key]
 
     def get_band_param(self, key):
         return self[key]
-- 
2.43.0


From ebc4ec9b63a3352fc4530f52492c6e2b2deea366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 02/46] fix: band parameters named like a sympy object are not
 taken for that object

---
 cuprates_transport/bandstructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 79dd81f..b916fe7 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -68,7 +68,9 @@ class BandStructure:
 
         # Create the dispersion and velocity functions
         self.band_model = band_model
-        self.energy_sym = sp.sympify(band_model)
+        # (locals: a parameter named like a Sympy object, e.g. E or beta, is a parameter)
+        self.energy_sym = sp.sympify(band_model,
+                                     locals={key: sp.Symbol(key) for key in self._band_params})
         self.energy_velocity_definition()
 
         # Discretization
-- 
2.43.0


From aa1011bbbc72d3ce2f3dddd7dcef1f2a08cd9129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 03/46] fix: constant velocity components have the shape of the
 wave vectors

---
 cuprates_transport/bandstructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index b916fe7..01932da 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -173,6 +173,8 @@ class BandStructure:
         for i, v in enumerate(self.v_sym):
             if v == 0:
                 self.v_sym[i] = "numpy.zeros_like(" + k_list[i] + ")"
+            elif not v.has(kx, ky, kz): # constant component, must be an array too
+                self.v_sym[i] = sp.Add(v, sp.Mul(0, sp.Symbol(k_list[i]), evaluate=False), evaluate=False)
 
         # Lambdafity //////////////////////////////////////////////////////////
         epsilon_func = sp.lambdify(self.var_sym, self.energy_sym, 'numpy')
-- 
2.43.0


From 6aa632fe456cce699cb3a0c5043d4e5f3eaa9481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 04/46] fix: the cyclotron mass is erased with the Fermi
 surface it was computed on

---
 cuprates_transport/bandstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 01932da..c71f263 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -152,6 +152,7 @@ class BandStructure:
         self.n   = None
         self.dos_k = None
         self.dos_epsilon = None
+        self.mass = None
         self.number_of_points_per_kz_list = []
 
     def energy_velocity_definition(self):
-- 
2.43.0


From 86194f18fe49447e3d75bcef3ed59b0637c1ec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 05/46] fix: set_mu_to_doping erases the Fermi surface and
 doping of the previous mu

---
 cuprates_transport/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index c71f263..f1275f6 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -268,8 +268,8 @@ class BandStructure:
         return self.doping() - p_target
 
     def set_mu_to_doping(self, p_target, ptol=0.001):
-        self._band_params["mu"] = optimize.brentq(self.diff_doping, -10, 10,
-                                                  args=(p_target,), xtol=ptol)
+        self["mu"] = optimize.brentq(self.diff_doping, -10, 10,
+                                     args=(p_target,), xtol=ptol)
 
     def discretize_fermi_surface(self, epsilon=0):
         if self.march_square is True:
-- 
2.43.0


From 54363a21e9ac1adbe1f3dc85526024fb6debab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 06/46] fix: marching squares accepts planes without contour

---
 cuprates_transport/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index f1275f6..05f61e1 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -366,6 +366,7 @@ class BandStructure:
         # Meshgrid for kx and ky
         kxx, kyy = np.meshgrid(kx_a, ky_a, indexing='ij')
         self.number_of_points_per_kz_list = []
+        kxf = None
         # Loop over the kz array
         for j, kz in enumerate(kz_a):
             contours = measure.find_contours(self.energy_func(kxx, kyy, kz), epsilon)
@@ -403,7 +404,7 @@ class BandStructure:
                     x_int = x_dump
                     y_int = y_dump
                 # Put in an array /////////////////////////////////////////////////////#
-                if i == 0 and j == 0:  # for first contour and first kz
+                if kxf is None:  # for first contour and first kz with a contour
                     kxf = x_int / self.a
                     kyf = y_int / self.b
                     # self.a (and not b) because anisotropy is taken into account earlier
-- 
2.43.0


From 9a410a6252964ace09b88333b7c786407d91359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 07/46] fix: marching squares arc lengths of orthorhombic
 lattices (b differs from a)

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 05f61e1..95a86d3 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -382,7 +382,7 @@ class BandStructure:
                     x = (contour[:, 0] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[0]
                     y = (contour[:, 1] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[1]
                 # path
-                ds = sqrt(np.diff(x)**2 + np.diff(y)**2)  # segment lengths
+                ds = sqrt(np.diff(x)**2 + (np.diff(y) * (self.a / self.b))**2)  # segment lengths, in units of 1 / a
                 s = np.zeros_like(x)  # arrays of zeros
                 s[1:] = np.cumsum(ds)  # integrate path, s[0] = 0
                 # Store the number of k points per kz
-- 
2.43.0


From 24e2f698fe0f62c37d115903d7f7d32799e6a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 08/46] fix: gamma_dos_func is evaluated at the points it is
 asked for

---
 cuprates_transport/scattering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 0723b3b..5512152 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -156,7 +156,9 @@ class Scattering:
         """
         dos_max = np.max(self.bandObject.dos_k)
         # value to normalize the DOS to a quantity without units
-        return self.gamma_dos_max * (self.bandObject.dos_k / dos_max)
+        # DOS at the points given by their velocities (on the FS, or along the orbits)
+        dos_k = 1 / (hbar * sqrt(vx**2 + vy**2 + vz**2))
+        return self.gamma_dos_max * (dos_k / dos_max)
 
     # @scattering_method
     # def gamma_cmfp_func(self, vx, vy, vz):
-- 
2.43.0


From e35e8cedb624b7657c3b23f2d0da50e26c2e15f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 09/46] fix: omegac_tau_func passes vz (not kz) to the
 scattering rate and works with marching cubes

---
 cuprates_transport/conductivity.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 0d818a9..4660737 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -311,7 +311,6 @@ class Conductivity(Scattering):
             return 0
 
     def omegac_tau_func(self):
-        dks = self.bandObject.dks / Angstrom # in m^-1
         kf = self.bandObject.kf
         vf = self.bandObject.vf # in m / s
         kf_perp = sqrt(kf[0, :]**2 + kf[1, :]**2) / Angstrom  # kf perp to B in m
@@ -319,7 +318,7 @@ class Conductivity(Scattering):
         prefactor = hbar / (2 * pi * e * self._Bamp)
         ## Function of k
         kf0, kf1, kf2 = kf[0, :], kf[1, :], kf[2, :]
-        vf0, vf1, vf2 = vf[0, :], vf[1, :], kf[2, :]
+        vf0, vf1, vf2 = vf[0, :], vf[1, :], vf[2, :]
         inverse_omegac_tau_k = (prefactor * 2*pi*kf_perp / vf_perp / picosecond *
                                 self.tau_tot_func(kf0, kf1, kf2, vf0, vf1, vf2))
         self.omegac_tau_k = 1 / inverse_omegac_tau_k
-- 
2.43.0


From 5a3a5a7fbd4c1fb17aecfd3288c2446363804c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 10/46] fix: total filling and hole doping of a scan

---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 8905099..0e06eb7 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -66,9 +66,10 @@ class ADMR:
 
     #---------------------------------------------------------------------------
     def update_total_doping(self):
+        self.total_filling = 0
         for i in range(len(self.condObject_list)):
             self.total_filling += self.condObject_list[i].bandObject.n
-        self.total_hole_dopin = 1 - self.total_filling
+        self.total_hole_doping = 1 - self.total_filling
 
     def file_name_func(self):
         # To point to bandstructure parameters, we use just one band
-- 
2.43.0


From ead0c4bb3f5d9586b7468975c4de67034773976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 11/46] fix: bands and scattering do not share lists and
 dictionaries with the caller

---
 cuprates_transport/bandstructure.py | 4 ++--
 cuprates_transport/scattering.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 95a86d3..adcbb50 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -78,7 +78,7 @@ class BandStructure:
         # Number of subdivisions of the FBZ in units of Pi
         self.resolution = [res if res % 2 != 0 else res + 1 for res in resolution]
         # Unitless bounds of the Brillouin zone : k_x = [- k_max / a ... + k_max / a]
-        self.k_max = k_max # list
+        self.k_max = list(k_max) # list
 
         # Whether to use or not the marching square for higher symmetries
         self.march_square = march_square
@@ -123,7 +123,7 @@ class BandStructure:
         return self._band_params
 
     def _set_band_params(self, band_params):
-        self._band_params = band_params
+        self._band_params = deepcopy(band_params)
         self.erase_Fermi_surface()
     band_params = property(_get_band_params, _set_band_params)
 
diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 5512152..0a836d6 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -23,7 +23,7 @@ def scattering_method(func):
 class Scattering:
     def __init__(self, scattering_models, scattering_params, **kwargs):
 
-        self.scattering_models = scattering_models
+        self.scattering_models = list(scattering_models)
         self._scattering_params = deepcopy(scattering_params)
         self.gamma_tot = np.empty(1) # [ps^-1] total scattering rate array
 
@@ -82,7 +82,7 @@ class Scattering:
         return self._scattering_params
 
     def _set_scattering_params(self, scattering_params):
-        self._scattering_params = scattering_params
+        self._scattering_params = deepcopy(scattering_params)
         # Set scattering rate model parameters as class attributes
         for param, value in self._scattering_params.items():
             setattr(self, param, value)  # Set each parameter as an attribute
-- 
2.43.0


From 2c8b06dce21b70d2f75d7dc9cdbf8df5fc961b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 12/46] fix: thermoelectric and thermal tensors vanish at T = 0
 instead of being left over

---
 cuprates_transport/conductivity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 4660737..50557a5 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -276,6 +276,9 @@ class Conductivity(Scattering):
                                                   self.kft, self.vft,
                                                   self.t_o_tau)
             self.sigma = coeff_tot
+            # no entropy is carried at T = 0
+            self.alpha = np.zeros((3,3), dtype= np.float64)
+            self.beta  = np.zeros((3,3), dtype= np.float64)
         else:
             sigma_tot = 0
             alpha_tot = 0
-- 
2.43.0


From 0bd5ebbd18aea9388a44328fa1a4c2be567ac064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 13/46] fix: N_time can be changed before the first run

---
 cuprates_transport/conductivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 50557a5..0654d5f 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -115,6 +115,8 @@ class Conductivity(Scattering):
         return self._N_time
     def _set_N_time(self, N_time):
         self._N_time = N_time
+        if self.time_max is None: # not run yet, reset_time() will do it
+            return
         self.dtime = self.time_max / self._N_time
         self.time_array = np.arange(0, self.time_max, self.dtime)
         # integrand for tau_function
-- 
2.43.0


From 3e84fe31b55db035298ea2f263233a1299ec3ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 14/46] fix: figParameters shows the current scattering
 parameters

---
 cuprates_transport/conductivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 0654d5f..92ee675 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -603,8 +603,8 @@ class Conductivity(Scattering):
         for label, value in self.bandObject._band_params.items():
             labels_dict[label] = value
         labels_dict["# of BZ"] = self.bandObject.number_of_bz
-        for param, value in self._scattering_params.items():
-            labels_dict[param] = value
+        for param in self._scattering_params:
+            labels_dict[param] = getattr(self, param) # the current value
 
         ## Subfigure that serves the table of parameters
         fig, axes = plt.subplots(1, 1, figsize=(10.5, 5.8))
-- 
2.43.0


From 95d0b9b953d65d41987ffd5cd9b3af8ae6d02ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 15/46] fix: Fitness applies parameter vectors that contain a
 zero

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index d421b6d..61b2aa0 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -205,10 +205,10 @@ class Fitness:
                 for T in self.T_list:
                     self.update_conditions(T, band, param, x[i])
 
-    def compute_fitness(self, x=np.array([0])):
+    def compute_fitness(self, x=None):
         """Compute chi2 = sum((sim[i] - data[i])**2)"""
         ## Update the params_dict with fit values
-        if x.all()!=0:
+        if x is not None:
             self.update_parameters(x)
         ## Compute sim, then diff
         diff_array = np.empty(0)
-- 
2.43.0


From 4bbb73108f2b35e5fccb34217d47ba1dcce74907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 16/46] fix: free parameters outside band_params and
 scattering_params reach the multi-T simulation

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 61b2aa0..e89260f 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -118,8 +118,15 @@ class SimADMR:
         for i, band in enumerate(self.bands_list):
             band_params = self.params_dict[band]["band_params"]
             scattering_params = self.params_dict[band]["scattering_params"]
-            self.admrObject.condObject_list[i].bandObject.band_params =  band_params
-            self.admrObject.condObject_list[i].scattering_params = scattering_params
+            condObject = self.admrObject.condObject_list[i]
+            for key in ("a", "b", "c", "number_of_bz", "energy_scale"):
+                if key in self.params_dict[band].keys():
+                    setattr(condObject.bandObject, key, self.params_dict[band][key])
+            for key in ("Bamp", "T"):
+                if key in self.params_dict[band].keys():
+                    setattr(condObject, key, self.params_dict[band][key])
+            condObject.bandObject.band_params =  band_params
+            condObject.scattering_params = scattering_params
 
     def compute_rhozz(self, Btheta_norm=0):
         """Calculate the simulated rhozz from ADMR object"""
-- 
2.43.0


From 6c4d632de315853c7eb614bcfabe79bc3f7f77b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 17/46] fix: multi-T fit with only common free parameters fits
 all temperatures

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index e89260f..9c96cc6 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -149,6 +149,8 @@ class Fitness:
         self.bounds_dict = deepcopy(bounds_dict)
         self.data_dict   = deepcopy(data_dict)
         self.T_list = [T for T in self.bounds_dict.keys() if T!="all"]
+        if len(self.T_list) == 0: # only parameters common to all temperatures
+            self.T_list = list(self.params_dict.keys())
         self.normalized_data = normalized_data
         ## Create list of free parameters
         self.free_params_labels = []
-- 
2.43.0


From b2a7bf21e34b46985c5c42a42de6283cc56bbfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 18/46] fix: scattering parameters can be free parameters of
 the one-temperature fits

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++++
 cuprates_transport/fitting_admr_series_oneT.py   | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index bff76df..ce9b8fb 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -161,6 +161,8 @@ class FittingADMRParallel:
                 self.member[pars_name] = self.pars[pars_name]
             elif pars_name in self.member["band_params"].keys():
                 self.member["band_params"][pars_name] = self.pars[pars_name]
+            elif pars_name in self.member["scattering_params"].keys():
+                self.member["scattering_params"][pars_name] = self.pars[pars_name]
 
         ## Compute ADMR ------------------------------------------------------------
         self.generate_admr()
@@ -400,6 +402,8 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
             fit_object.member[pars_name] = res.x[i]
         elif pars_name in fit_object.member["band_params"].keys():
             fit_object.member["band_params"][pars_name] = res.x[i]
+        elif pars_name in fit_object.member["scattering_params"].keys():
+            fit_object.member["scattering_params"][pars_name] = res.x[i]
         print(pars_name + " : " + "{0:g}".format(res.x[i]))
     ## Save BEST member to JSON
     fit_object.save_member_to_json(filename=filename)
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index ef2c0f8..2de2aaa 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -34,6 +34,8 @@ class FittingADMR:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
                 self.pars.add(param_name, value = self.init_member["band_params"][param_name], min = param_range[0], max = param_range[-1])
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.pars.add(param_name, value = self.init_member["scattering_params"][param_name], min = param_range[0], max = param_range[-1])
         self.method      = method # "shgo", "differential_evolution", "leastsq"
         ## Differential evolution
         self.population  = population
@@ -164,6 +166,8 @@ class FittingADMR:
                 self.member[param_name] = self.pars[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = self.pars[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = self.pars[param_name].value
             print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
 
         ## Compute ADMR ------------------------------------------------------------
@@ -213,6 +217,8 @@ class FittingADMR:
                 self.member[param_name] = out.params[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = out.params[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = out.params[param_name].value
 
         ## Save BEST member to JSON
         self.save_member_to_json(filename=filename)
-- 
2.43.0


From 306d11d90ad9c4a2c73216455c0830d531790491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 19/46] fix: scattering parameters common to all temperatures,
 fixed or free, in the sequential multi-T fit

---
 cuprates_transport/fitting_admr_series_multi_T.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index a09cd42..88980c4 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -39,6 +39,8 @@ class FittingADMR:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
                 self.pars.add(param_name, value = self.init_member["band_params"][param_name], min = param_range[0], max = param_range[-1])
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.pars.add(param_name, value = self.init_member["scattering_params"][param_name], min = param_range[0], max = param_range[-1])
         self.method      = method # "shgo", "differential_evolution", "leastsq"
 
         ## Create a dictionnary member that contains dictionnaries for each temperatures
@@ -47,7 +49,7 @@ class FittingADMR:
             self.member_dict[T] = deepcopy(init_member)
             self.member_dict[T]["data_T"] = T
         for param_name, param_value in init_member.items(): # then break the dictionaries of temperatures in member
-            if type(param_value)==dict and param_name!="band_params":
+            if type(param_value)==dict and all(T in param_value.keys() for T in self.data_T_list):
                 for T in self.data_T_list:
                     self.member_dict[T][param_name] = init_member[param_name][T]
 
@@ -199,6 +201,8 @@ class FittingADMR:
                     self.member_dict[T][param_name] = self.pars[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
                     self.member_dict[T]["band_params"][param_name] = self.pars[param_name].value
+                elif param_name in self.init_member["scattering_params"].keys():
+                    self.member_dict[T]["scattering_params"][param_name] = self.pars[param_name].value
 
         # Print params
         for param_name in self.ranges_dict.keys():
@@ -269,6 +273,8 @@ class FittingADMR:
                     self.member_dict[T][param_name] = out.params[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
                     self.member_dict[T]["band_params"][param_name] = out.params[param_name].value
+                elif param_name in self.init_member["scattering_params"].keys():
+                    self.member_dict[T]["scattering_params"][param_name] = out.params[param_name].value
 
         ## Save BEST member to JSON
         self.save_member_to_json(filename=filename)
-- 
2.43.0


From 5c416b1fa4ca0100ecccef1691b891df554f1f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 20/46] fix: figures and default file names of the
 one-temperature and sequential fits use attributes that exist

---
 cuprates_transport/fitting_admr_parallel_oneT.py  | 4 ++--
 cuprates_transport/fitting_admr_series_multi_T.py | 6 +++---
 cuprates_transport/fitting_admr_series_oneT.py    | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index ce9b8fb..8bbf3f9 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -319,7 +319,7 @@ class FittingADMRParallel:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.condObject_dict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -327,7 +327,7 @@ class FittingADMRParallel:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 88980c4..54eddc9 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -327,11 +327,11 @@ class FittingADMR:
             fig.text(0.84,0.84, r"$T$ (data) = " + str(self.member_dict[T]["data_T"]) + " K", fontsize=14)
             fig.text(0.84,0.79, r"$T$ (sim) = " + str(self.member_dict[T]["T"]) + " K", fontsize=14)
             fig.text(0.84,0.74, r"$p$ (data) = " + "{0:.2f}".format(self.member_dict[T]["data_p"]), fontsize=14)
-            fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject_dict[T].totalHoleDoping), fontsize=14)
+            fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject_dict[T].total_hole_doping), fontsize=14)
             #############################################
 
             #############################################
-            axes.set_xlim(0, self.admrObject.Btheta_max)
+            axes.set_xlim(0, self.admrObject_dict[T].Btheta_max)
             # axes.set_ylim(1+1.2*(min_y-1),1.2*(max_y-1)+1)
             axes.tick_params(axis='x', which='major', pad=7)
             axes.tick_params(axis='y', which='major', pad=8)
@@ -389,7 +389,7 @@ class FittingADMR:
                 plt.close(fig)
 
             ## Figure Parameters //////////////////////////////////////////////////////#
-            for iniCondObject in self.admrObject_dict[T].initialCondObjectDict.values():
+            for iniCondObject in self.admrObject_dict[T].condObject_list:
                 fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 2de2aaa..21c5158 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -237,7 +237,7 @@ class FittingADMR:
         if filename==None:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
         path = self.folder + "/" + filename + ".json"
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
@@ -355,7 +355,7 @@ class FittingADMR:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.initialCondObjectDict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -363,7 +363,7 @@ class FittingADMR:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
-- 
2.43.0


From c1b0ad6019d5ddec6ea5c2bd13c8af75a786582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 21/46] fix: runFit does not report valid methods as missing

---
 cuprates_transport/fitting_admr_series_multi_T.py | 8 ++++----
 cuprates_transport/fitting_admr_series_oneT.py    | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 54eddc9..b7addaa 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -246,16 +246,16 @@ class FittingADMR:
         ## Run fit algorithm
         if self.method=="least_square":
             out = minimize(self.compute_diff, self.pars)
-        if self.method=="shgo":
+        elif self.method=="shgo":
             out = minimize(self.compute_diff, self.pars,
                            method='shgo', sampling_method='sobol', options={"f_tol": 1e-16}, n=100, iters=20)
-        if self.method=="ampgo":
+        elif self.method=="ampgo":
             out = minimize(self.compute_diff, self.pars,
                            method='ampgo')
-        if self.method=="dual_annealing":
+        elif self.method=="dual_annealing":
             out = minimize(self.compute_diff, self.pars,
                            method='dual_annealing')
-        if self.method=="differential_evolution":
+        elif self.method=="differential_evolution":
             out = minimize(self.compute_diff, self.pars,
                            method='differential_evolution')
         else:
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 21c5158..802d53e 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -196,13 +196,13 @@ class FittingADMR:
         ## Run fit algorithm
         if self.method=="least_square":
             out = minimize(self.compute_diff, self.pars)
-        if self.method=="shgo":
+        elif self.method=="shgo":
             out = minimize(self.compute_diff, self.pars,
                            method='shgo', sampling_method='sobol', options={"f_tol": 1e-16}, n = 100, iters=20)
-        if self.method=="differential_evolution":
+        elif self.method=="differential_evolution":
             out = minimize(self.compute_diff, self.pars,
                            method='differential_evolution')
-        if self.method=="ampgo":
+        elif self.method=="ampgo":
             out = minimize(self.compute_diff, self.pars,
                            method='ampgo')
         else:
-- 
2.43.0


From 8956697c97ed07c91c6fdc05250d7f4e6c01dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 22/46] fix: the angle grid of a fit does not grow past its
 maximum by rounding, call after call

---
 cuprates_transport/fitting_admr_parallel_oneT.py  | 2 +-
 cuprates_transport/fitting_admr_series_multi_T.py | 2 +-
 cuprates_transport/fitting_admr_series_oneT.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 8bbf3f9..634f247 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -105,7 +105,7 @@ class FittingADMRParallel:
     def load_Btheta_data(self):
         """Creates the theta angles at the selected temperatures and phi"""
         Btheta_array = np.arange(self.member["Btheta_min"],
-                                 self.member["Btheta_max"] + self.member["Btheta_step"],
+                                 self.member["Btheta_max"] + self.member["Btheta_step"] / 2,
                                  self.member["Btheta_step"])
         ## Create Bphi
         self.load_Bphi_data()
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index b7addaa..dda5c32 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -118,7 +118,7 @@ class FittingADMR:
         for T in self.data_T_list:
             ## Create Initial Btheta
             Btheta_array = np.arange(self.member_dict[T]["Btheta_min"],
-                                     self.member_dict[T]["Btheta_max"] + self.member_dict[T]["Btheta_step"],
+                                     self.member_dict[T]["Btheta_max"] + self.member_dict[T]["Btheta_step"] / 2,
                                      self.member_dict[T]["Btheta_step"])
             ## Create Bphi
             self.load_Bphi_data()
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 802d53e..70a213c 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -95,7 +95,7 @@ class FittingADMR:
     def load_Btheta_data(self):
         ## Create Initial Btheta
         Btheta_array = np.arange(self.member["Btheta_min"],
-                                 self.member["Btheta_max"] + self.member["Btheta_step"],
+                                 self.member["Btheta_max"] + self.member["Btheta_step"] / 2,
                                  self.member["Btheta_step"])
         ## Create Bphi
         self.load_Bphi_data()
-- 
2.43.0


From 2e833d62f83a777e1c9f2125bbdb733b50b6b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 23/46] fix: the sequential multi-T fit finds its temperatures
 again in a JSON file

---
 cuprates_transport/fitting_admr_series_multi_T.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index dda5c32..8bba7ae 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -285,7 +285,9 @@ class FittingADMR:
 
     def load_member_from_json(self):
         with open(self.folder + "/" + self.json_name, "r") as f:
-            self.member_dict = json.load(f)
+            member_dict = json.load(f)
+        # JSON turns the temperatures into strings
+        self.member_dict = {T: member_dict[str(T)] for T in self.data_T_list}
 
 
     def save_member_to_json(self, filename=None):
-- 
2.43.0


From f23e8fff149604836539773a374a16033a57ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 24/46] fix: sequential fits without folder write in the
 current directory, not in the root directory

---
 cuprates_transport/fitting_admr_series_multi_T.py | 11 ++++++-----
 cuprates_transport/fitting_admr_series_oneT.py    |  7 ++++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 8bba7ae..3ee1d38 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -1,4 +1,5 @@
 import json
+import os
 import numpy as np
 import time
 from copy import deepcopy
@@ -284,7 +285,7 @@ class FittingADMR:
 
 
     def load_member_from_json(self):
-        with open(self.folder + "/" + self.json_name, "r") as f:
+        with open(os.path.join(self.folder, self.json_name), "r") as f:
             member_dict = json.load(f)
         # JSON turns the temperatures into strings
         self.member_dict = {T: member_dict[str(T)] for T in self.data_T_list}
@@ -293,12 +294,12 @@ class FittingADMR:
     def save_member_to_json(self, filename=None):
         self.produce_ADMR_object()
         if filename==None:
-            path = self.folder + "/data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_"
+            path = os.path.join(self.folder, "data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_")
             for T in self.data_T_list:
                 path += "{0:.1f}".format(self.member_dict[T]["data_T"]) + "K_"
             path += "fit_.json"
         else:
-            path = self.folder + "/" + filename + ".json"
+            path = os.path.join(self.folder, filename + ".json")
         with open(path, 'w') as f:
             json.dump(self.member_dict, f, indent=4)
 
@@ -397,12 +398,12 @@ class FittingADMR:
         ## Save figures list --------------
         if fig_save == True:
             if figname==None:
-                path = self.folder + "/data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_"
+                path = os.path.join(self.folder, "data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_")
                 for T in self.data_T_list:
                     path += "{0:.1f}".format(self.member_dict[T]["data_T"]) + "K_"
                 path += "fit_.pdf"
             else:
-                path = self.folder + "/" + figname + ".pdf"
+                path = os.path.join(self.folder, figname + ".pdf")
 
             file_figures = PdfPages(path)
             for fig in fig_list:
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 70a213c..215fbc6 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -1,4 +1,5 @@
 import json
+import os
 import numpy as np
 import time
 from copy import deepcopy
@@ -228,7 +229,7 @@ class FittingADMR:
 
 
     def load_member_from_json(self):
-        with open(self.folder + "/" + self.json_name, "r") as f:
+        with open(os.path.join(self.folder, self.json_name), "r") as f:
             self.member = json.load(f)
 
 
@@ -238,7 +239,7 @@ class FittingADMR:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
             "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
-        path = self.folder + "/" + filename + ".json"
+        path = os.path.join(self.folder, filename + ".json")
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
 
@@ -364,7 +365,7 @@ class FittingADMR:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
                 "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
-            path = self.folder + "/" + figname + ".pdf"
+            path = os.path.join(self.folder, figname + ".pdf")
             file_figures = PdfPages(path)
             for fig in fig_list:
                 file_figures.savefig(fig)
-- 
2.43.0


From 63fd70eecc6f5713c523940ac52affd5cf745521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 25/46] fix: the band is back on its Fermi level after a failed
 finite-temperature run

---
 cuprates_transport/conductivity.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 92ee675..d8383a5 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -160,19 +160,22 @@ class Conductivity(Scattering):
             self.kft_epsilon        = {}
             self.vft_epsilon        = {}
             self.t_o_tau_epsilon    = {}
-            for epsilon in self.epsilon_array:
-                self.bandObject.runBandStructure(epsilon = epsilon, printDoping=False)
-                self.solve_movement()
-                self.t_o_tau_func(epsilon)
-                self.dos_k_epsilon[epsilon]      = self.bandObject.dos_k
-                self.dkf_epsilon[epsilon]        = self.bandObject.dkf
-                self.kft_epsilon[epsilon]        = self.kft
-                self.vft_epsilon[epsilon]        = self.vft
-                self.t_o_tau_epsilon[epsilon]    = self.t_o_tau
-                ## !!!!  Do not forget to update scattering rates !!! ##
-                ## Create properties for tmax, etc.
-            self.bandObject.runBandStructure(epsilon = 0, printDoping=False)
-            # this last one is to be sure the bandObject is at the FS at the end
+            try:
+                for epsilon in self.epsilon_array:
+                    self.bandObject.runBandStructure(epsilon = epsilon, printDoping=False)
+                    self.solve_movement()
+                    self.t_o_tau_func(epsilon)
+                    self.dos_k_epsilon[epsilon]      = self.bandObject.dos_k
+                    self.dkf_epsilon[epsilon]        = self.bandObject.dkf
+                    self.kft_epsilon[epsilon]        = self.kft
+                    self.vft_epsilon[epsilon]        = self.vft
+                    self.t_o_tau_epsilon[epsilon]    = self.t_o_tau
+                    ## !!!!  Do not forget to update scattering rates !!! ##
+                    ## Create properties for tmax, etc.
+            finally:
+                self.bandObject.runBandStructure(epsilon = 0, printDoping=False)
+                # this last one is to be sure the bandObject is at the FS at the end,
+                # also when there is no surface at one of the energies
             self.chambers_func()
         else:
             self.solve_movement()
-- 
2.43.0


From 93423e853fa2c5a9891d0874c5f899879ee4a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:27 +0000
Subject: [PATCH 26/46] fix: one-temperature fits keep their own copy of the
 bounds and of the data dictionary

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++--
 cuprates_transport/fitting_admr_series_oneT.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 634f247..1e7678e 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -24,8 +24,8 @@ class FittingADMRParallel:
         ## Initialize
         self.init_member = deepcopy(init_member) # contains all the parameters to calculate ADMR
         self.member      = deepcopy(init_member) # contains all the parameters to calculate ADMR
-        self.bounds_dict = bounds_dict
-        self.data_dict   = data_dict
+        self.bounds_dict = deepcopy(bounds_dict)
+        self.data_dict   = deepcopy(data_dict)
         self.init_time   = time.time()
         self.popsize     = popsize # the popsize for the differential evolution
         self.folder      = folder
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 215fbc6..365a3eb 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -24,8 +24,8 @@ class FittingADMR:
         ## Initialize
         self.init_member = deepcopy(init_member)
         self.member      = deepcopy(init_member)
-        self.ranges_dict = ranges_dict
-        self.data_dict   = data_dict
+        self.ranges_dict = deepcopy(ranges_dict)
+        self.data_dict   = deepcopy(data_dict)
         self.folder      = folder
         self.normalized_data = normalized_data
         self.pipi_FSR    = pipi_FSR
-- 
2.43.0


From e704dc41399723c5d28d7aa381e471afbba682a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:27 +0000
Subject: [PATCH 27/46] fix: a parallel fit has at least one worker

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 +-
 cuprates_transport/fitting_admr_parallel_oneT.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 9c96cc6..a2840b3 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -337,7 +337,7 @@ def fit_admr_parallel(params_dict, bounds_dict, data_dict,
     ## Initialize workers
     if num_cpu is None:
         num_cpu = cpu_count(logical=False)
-    num_workers = int(percent_workers / 100 * num_cpu)
+    num_workers = max(1, int(percent_workers / 100 * num_cpu))
     print("# Parallelization | CPU cores: " + str(num_cpu) + " | Workers: " + str(num_workers) )
     ## Initialize counter
     num_member = Value('i', 0)
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 1e7678e..3a36ccb 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -354,7 +354,7 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
                 normalized_data=normalized_data)
     if num_cpu is None:
         num_cpu = cpu_count(logical=False)
-    num_workers = int(percent_workers / 100 * num_cpu)
+    num_workers = max(1, int(percent_workers / 100 * num_cpu))
     print("# cpu cores: " + str(num_cpu))
     print("# workers: " + str(num_workers))
     ## Initialize counter
-- 
2.43.0


From d22ed38b1a11f311586965e54236721eff5328c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 28/46] fix: the sequential multi-T fit keeps its own list of
 temperatures

---
 cuprates_transport/fitting_admr_series_multi_T.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 3ee1d38..9a8481b 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -26,7 +26,7 @@ class FittingADMR:
         self.init_member = deepcopy(init_member)
         self.ranges_dict = deepcopy(ranges_dict)
         self.data_dict   = deepcopy(data_dict)
-        self.data_T_list = init_member["data_T"]
+        self.data_T_list = list(init_member["data_T"])
         self.folder      = folder
         self.normalized_data = normalized_data
         self.pipi_FSR    = pipi_FSR
@@ -52,7 +52,7 @@ class FittingADMR:
         for param_name, param_value in init_member.items(): # then break the dictionaries of temperatures in member
             if type(param_value)==dict and all(T in param_value.keys() for T in self.data_T_list):
                 for T in self.data_T_list:
-                    self.member_dict[T][param_name] = init_member[param_name][T]
+                    self.member_dict[T][param_name] = deepcopy(init_member[param_name][T])
 
         ## Objects
         if pipi_FSR==False:
-- 
2.43.0


From 887d4af8480058c09e5ced69ac3f84ccf77120f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:34 +0000
Subject: [PATCH 29/46] fix: normalize scans whose polar angles are not in
 increasing order

---
 cuprates_transport/admr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 0e06eb7..9c05174 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -58,9 +58,11 @@ class ADMR:
 
         ## Normalization
         self.rzz_array = np.empty_like(self.rhozz_array)
+        index_order = np.argsort(self.Btheta_array) # interp needs increasing angles
         for i in range(len(self.Bphi_array)):
             rhozz_norm = np.interp(self.Btheta_norm,
-                                   self.Btheta_array, self.rhozz_array[i,:])
+                                   self.Btheta_array[index_order],
+                                   self.rhozz_array[i, index_order])
             self.rzz_array[i,:] = self.rhozz_array[i,:] / rhozz_norm
         self.update_total_doping()
 
-- 
2.43.0


From 7941e7fb6239559de32fe843d6b0ccfbbcf21339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:08 +0000
Subject: [PATCH 30/46] fix: the sequential multi-T fit simulates each
 temperature with its own band values

---
 .../fitting_admr_series_multi_T.py             | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 9a8481b..82330e3 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -79,13 +79,17 @@ class FittingADMR:
         self.rzz_data_i_dict    = {}
 
 
+    def update_band(self, T):
+        """Gives the bandObject the values of the member at temperature T"""
+        for key in ("a", "b", "c", "number_of_bz", "energy_scale"):
+            if key in self.member_dict[T].keys():
+                setattr(self.bandObject, key, self.member_dict[T][key])
+        self.bandObject.band_params = self.member_dict[T]["band_params"]
+
+
     def produce_ADMR_object(self):
         ## Update bandObject
-        for param_name in self.ranges_dict.keys():
-                if hasattr(self.bandObject, param_name):
-                    setattr(self.bandObject, param_name, self.member_dict[self.data_T_list[0]][param_name])
-                if param_name in self.bandObject._band_params.keys():
-                    self.bandObject[param_name] = self.member_dict[self.data_T_list[0]]["band_params"][param_name]
+        self.update_band(self.data_T_list[0])
 
         ## Adjust the doping if need be
         if self.member_dict[self.data_T_list[0]]["fixdoping"] >=-1 and self.member_dict[self.data_T_list[0]]["fixdoping"] <=1:
@@ -93,9 +97,9 @@ class FittingADMR:
             for T in self.data_T_list:
                 self.member_dict[T]["band_params"]["mu"] = self.bandObject["mu"]
 
-        self.bandObject.runBandStructure()
-
         for T in self.data_T_list:
+            self.update_band(T)
+            self.bandObject.runBandStructure()
             self.condObject_dict[T] = Conductivity(self.bandObject, **self.member_dict[T])
             self.admrObject_dict[T] = ADMR([self.condObject_dict[T]], **self.member_dict[T])
             self.admrObject_dict[T].Btheta_array = self.Btheta_dict[T]
-- 
2.43.0


From 53b7c9f1b20717f5378f638b242b424393bfcffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:53 +0000
Subject: [PATCH 31/46] fix: the sequential multi-T fit accepts temperatures
 that are not integers

---
 cuprates_transport/fitting_admr_series_multi_T.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 82330e3..5b56343 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -35,7 +35,7 @@ class FittingADMR:
         for param_name, param_range in self.ranges_dict.items():
             if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
                 for T in self.data_T_list:
-                    self.pars.add(param_name + "_" + str(T), value = self.init_member[param_name][T], min = param_range[T][0], max = param_range[T][-1])
+                    self.pars.add(self.par_name(param_name, T), value = self.init_member[param_name][T], min = param_range[T][0], max = param_range[T][-1])
             elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
@@ -79,6 +79,12 @@ class FittingADMR:
         self.rzz_data_i_dict    = {}
 
 
+    @staticmethod
+    def par_name(param_name, T):
+        """Name of the fit parameter of temperature T; lmfit only accepts identifiers"""
+        return param_name + "_" + str(T).replace(".", "p").replace("-", "m")
+
+
     def update_band(self, T):
         """Gives the bandObject the values of the member at temperature T"""
         for key in ("a", "b", "c", "number_of_bz", "energy_scale"):
@@ -201,7 +207,7 @@ class FittingADMR:
         for param_name in self.ranges_dict.keys():
             for T in self.data_T_list:
                 if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
-                    self.member_dict[T][param_name] = self.pars[param_name + "_" + str(T)].value
+                    self.member_dict[T][param_name] = self.pars[self.par_name(param_name, T)].value
                 elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
                     self.member_dict[T][param_name] = self.pars[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
@@ -213,7 +219,7 @@ class FittingADMR:
         for param_name in self.ranges_dict.keys():
             if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
                         for T in self.data_T_list:
-                            print(param_name + "_" + str(T) + " : " + "{0:g}".format(self.pars[param_name + "_" + str(T)].value))
+                            print(self.par_name(param_name, T) + " : " + "{0:g}".format(self.pars[self.par_name(param_name, T)].value))
             elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
                         print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
             elif param_name in self.init_member["band_params"].keys():
@@ -273,7 +279,7 @@ class FittingADMR:
         for param_name in self.ranges_dict.keys():
             for T in self.data_T_list:
                 if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
-                    self.member_dict[T][param_name] = out.params[param_name + "_" + str(T)].value
+                    self.member_dict[T][param_name] = out.params[self.par_name(param_name, T)].value
                 elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
                     self.member_dict[T][param_name] = out.params[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
-- 
2.43.0


From 4b8f627b6e62237740b49b58c98b5411fa11998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 32/46] fix: the default name of a saved member carries the
 doping of its bands

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 1 +
 cuprates_transport/fitting_admr_series_oneT.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 3a36ccb..a992c38 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -204,6 +204,7 @@ class FittingADMRParallel:
 
     def save_member_to_json(self, filename=None):
         self.generate_admr()
+        self.admrObject.update_total_doping() # for the file name
         if filename==None:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 365a3eb..af799ec 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -235,6 +235,7 @@ class FittingADMR:
 
     def save_member_to_json(self, filename=None):
         self.produce_ADMR_object()
+        self.admrObject.update_total_doping() # for the file name
         if filename==None:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-- 
2.43.0


From cd73eca1525f37120e3fb8f7e7fe00d82481643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 33/46] fix: orbits are integrated to the end whatever the time
 step

---
 cuprates_transport/conductivity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index d8383a5..6660c19 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -214,8 +214,11 @@ class Conductivity(Scattering):
             # Flatten to get all the initial kf solved at the same time
             kf0 = self.bandObject.kf.flatten()
             # Sovle differential equation
+            # (mxstep: as many internal steps as needed between two times, odeint
+            # stops at 500 by default and leaves the rest of the orbits undefined)
             self.kft = odeint(self.movement_equation, kf0, self.time_array,
-                              rtol = self.rtol, atol = self.atol).transpose()
+                              rtol = self.rtol, atol = self.atol,
+                              mxstep = np.iinfo(np.int32).max).transpose()
             # Reshape arrays
             self.kft.shape = (3, len_kf, len_t)
             # Velocity function of time
-- 
2.43.0


From 6c83805fb003c2ab384b4b782bbfc8d1a6f1a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 34/46] fix: drawing the Fermi surfaces of several planes
 leaves filling and doping as they were

---
 cuprates_transport/bandstructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index adcbb50..3a8e473 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -569,7 +569,9 @@ class BandStructure:
         # Adding the third value line
         fig.text(0.76, 0.68, r"$" + f"{a_z:g}" + r"\pi/c$", color="#f3d36b", fontsize=18)  # k_z
         fig.text(0.88, 0.68, (np.round(doping_per_kz[2], 3)), color="#f3d36b", fontsize=18)  # p_z
+        n, p = self.n, self.p
         fig.text(0.76, 0.54, r"$p_{\rm tot}$ = " + str(np.round(self.doping(), 3)), fontsize = 18)
+        self.n, self.p = n, p # a figure changes nothing
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 0), 0, colors = '#ff0000', linewidths = 3)
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, pi/self.c), 0, colors = '#ee9c54', linewidths = 3)
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 2*pi/self.c), 0, colors = '#f3d36b', linewidths = 3)
-- 
2.43.0


From 8cb738007cabaaf54fe992c2bd10c46cc4836aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 35/46] fix: figMultipleFS2D draws the planes its labels and
 dopings are about

---
 cuprates_transport/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 3a8e473..e4eb3b0 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -573,8 +573,8 @@ class BandStructure:
         fig.text(0.76, 0.54, r"$p_{\rm tot}$ = " + str(np.round(self.doping(), 3)), fontsize = 18)
         self.n, self.p = n, p # a figure changes nothing
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 0), 0, colors = '#ff0000', linewidths = 3)
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, pi/self.c), 0, colors = '#ee9c54', linewidths = 3)
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 2*pi/self.c), 0, colors = '#f3d36b', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/2/self.c), 0, colors = '#ee9c54', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), 0, colors = '#f3d36b', linewidths = 3)
         axes.set_xlim(-self.k_max[0], self.k_max[0])
         axes.set_ylim(-self.k_max[1], self.k_max[1])
         axes.tick_params(axis='x', which='major', pad=7)
-- 
2.43.0


From 2fab6c44a65cb4472ea139d32b9eefe7a9379f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 36/46] fix: figDiscretizeFS2D draws the points of the plane it
 names

---
 cuprates_transport/bandstructure.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index e4eb3b0..c1c6f78 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -466,15 +466,16 @@ class BandStructure:
         ky = np.linspace(-self.k_max[1] / self.b, self.k_max[1] / self.b, mesh_graph)
         kxx, kyy = np.meshgrid(kx, ky, indexing = 'ij')
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), 0, colors = '#FF0000', linewidths = 3) # problem for orthorhombic
-        ## k-points
-        line = axes.plot(self.kf[0,:self.number_of_points_per_kz_list[-1]] * self.a,
-                         self.kf[1,:self.number_of_points_per_kz_list[-1]] * self.b)
+        ## k-points, those of the last plane
+        first = self.kf.shape[1] - self.number_of_points_per_kz_list[-1]
+        line = axes.plot(self.kf[0,first:] * self.a,
+                         self.kf[1,first:] * self.b)
         plt.setp(line, ls ="", c = 'k', lw = 3, marker = "o", mfc = 'k', ms = 5, mec = "#7E2320", mew= 0)
         ## Velocities
-        axes.quiver(self.kf[0,:self.number_of_points_per_kz_list[-1]] * self.a,
-                    self.kf[1,:self.number_of_points_per_kz_list[-1]] * self.b,
-                    self.vf[0,:self.number_of_points_per_kz_list[-1]],
-                    self.vf[1,:self.number_of_points_per_kz_list[-1]],
+        axes.quiver(self.kf[0,first:] * self.a,
+                    self.kf[1,first:] * self.b,
+                    self.vf[0,first:],
+                    self.vf[1,first:],
                     color = 'k')
         axes.set_xlim(-self.k_max[0], self.k_max[0])
         axes.set_ylim(-self.k_max[1], self.k_max[1])
-- 
2.43.0


From b2f11886adf9d3022be89a39f39749971664ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 37/46] fix: name of the third axis of figDiscretizeFS3D

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index c1c6f78..531ae0a 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -540,7 +540,7 @@ class BandStructure:
         axes.set_yticks([-self.k_max[1], 0., self.k_max[1]])
         axes.set_yticklabels([r"-" + f"{a_y:g}" + r"$\pi$", "0", f"{a_y:g}" + r"$\pi$"])
         a_z = np.round(self.k_max[2] / pi, 1)
-        axes.set_zlabel(r"$k_{\rm y}$", labelpad = 12)
+        axes.set_zlabel(r"$k_{\rm z}$", labelpad = 12)
         axes.set_zticks([-self.k_max[2], 0., self.k_max[2]])
         axes.set_zticklabels([r"-" + f"{a_z:g}" + r"$\pi$", "0", f"{a_z:g}" + r"$\pi$"])
         plt.show()
-- 
2.43.0


From 803302159426358ea9f3b5bc3dc27b3164376b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 38/46] fix: scattering-rate figures of bands without kz
 dispersion

---
 cuprates_transport/conductivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 6660c19..8e48041 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -419,7 +419,7 @@ class Conductivity(Scattering):
             # one want to scale to units of kx and ky
             kx = (contour[:, 0] / (mesh_xy - 1) -0.5) * 2*pi / bObj.a
             ky = (contour[:, 1] / (mesh_xy - 1) -0.5) * 2*pi / bObj.b
-            vx, vy, vz = bObj.velocity_func(kx, ky, kz)
+            vx, vy, vz = bObj.velocity_func(kx, ky, kz * np.ones_like(kx))
 
             gamma_kz = 1 / self.tau_tot_func(kx, ky, kz, vx, vy, vz)
             gamma_max_list.append(np.max(gamma_kz))
@@ -479,7 +479,7 @@ class Conductivity(Scattering):
             # one want to scale to units of kx and ky
             kx = (contour[:, 0] / (mesh_xy - 1) -0.5) * 2*pi / bObj.a
             ky = (contour[:, 1] / (mesh_xy - 1) -0.5) * 2*pi / bObj.b
-            vx, vy, vz = bObj.velocity_func(kx, ky, kz)
+            vx, vy, vz = bObj.velocity_func(kx, ky, kz * np.ones_like(kx))
 
             gamma_kz = 1 / self.tau_tot_func(kx, ky, kz, vx, vy, vz)
 
-- 
2.43.0


From abf43f0cfe2bb507641d9d3ac499207a5a3986e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 39/46] fix: color scale of the scattering-rate figures, for
 all contours and when there is none

---
 cuprates_transport/conductivity.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 8e48041..1f1f0c5 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -437,8 +437,9 @@ class Conductivity(Scattering):
         if gamma_min == None:
             gamma_min = min(gamma_min_list)
         if gamma_max == None:
-            gamma_min = min(gamma_min_list)
-        line.set_clim(gamma_min, gamma_max)
+            gamma_max = max(gamma_max_list)
+        for line in axes.collections: # same colors for all the contours
+            line.set_clim(gamma_min, gamma_max)
         cbar = fig.colorbar(line, ax=axes)
         cbar.minorticks_on()
         cbar.ax.set_ylabel(r'$\Gamma_{\rm tot}$ ( THz )', rotation=270, labelpad=40)
@@ -694,16 +695,18 @@ class Conductivity(Scattering):
             lc.set_array(gamma_kz0)
             lc.set_linewidth(4)
             line = axes_srate.add_collection(lc)
-        gamma_max = max(gamma_max_list)
-        gamma_min = min(gamma_min_list)
-        line.set_clim(gamma_min, gamma_max)
-        cbar = fig.colorbar(line, ax=axes_srate)
-        cbar.minorticks_on()
-        cbar.ax.tick_params(labelsize=10)
-        cbar.ax.set_ylabel(r'$\Gamma_{\rm tot}$ ( THz )',
-                        rotation=270,
-                        labelpad=20,
-                        fontsize=14)
+        if contours: # there is a Fermi surface in this plane
+            gamma_max = max(gamma_max_list)
+            gamma_min = min(gamma_min_list)
+            for line in axes_srate.collections: # same colors for all the contours
+                line.set_clim(gamma_min, gamma_max)
+            cbar = fig.colorbar(line, ax=axes_srate)
+            cbar.minorticks_on()
+            cbar.ax.tick_params(labelsize=10)
+            cbar.ax.set_ylabel(r'$\Gamma_{\rm tot}$ ( THz )',
+                            rotation=270,
+                            labelpad=20,
+                            fontsize=14)
         fig.text(0.305, 0.405, r"$k_{\rm z}$=0", fontsize=10, ha="right")
         axes_srate.tick_params(axis='x', which='major')
         axes_srate.tick_params(axis='y', which='major')
-- 
2.43.0


From 6b2b0562291adde049fdd52bd56aedc281a2b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 40/46] fix: figOnekft draws the plane kz = 0 it names and the
 starting point of the orbit

---
 cuprates_transport/conductivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 1f1f0c5..70e8eba 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -526,10 +526,10 @@ class Conductivity(Scattering):
         fig.subplots_adjust(left = 0.24, right = 0.87, bottom = 0.29, top = 0.91)
         fig.text(0.39,0.84, r"$k_{\rm z}$ = 0", ha = "right", fontsize = 16)
         line = axes.contour(kxx*bObj.a, kyy*bObj.b,
-                            bObj.energy_func(kxx, kyy, - 2*pi / bObj.c), 0, colors = '#FF0000', linewidths = 3)
+                            bObj.energy_func(kxx, kyy, 0), 0, colors = '#FF0000', linewidths = 3)
         line = axes.plot(self.kft[0, index_kf,:]*bObj.a, self.kft[1, index_kf,:]*bObj.b)
         plt.setp(line, ls ="-", c = 'b', lw = 1, marker = "", mfc = 'b', ms = 5, mec = "#7E2320", mew= 0) # trajectory
-        line = axes.plot(bObj.kf[0, index_kf]*bObj.a, bObj.kf[1, index_kf]*bObj.b)
+        line = axes.plot(self.kft[0, index_kf, 0]*bObj.a, self.kft[1, index_kf, 0]*bObj.b)
         plt.setp(line, ls ="", c = 'b', lw = 3, marker = "o", mfc = 'w', ms = 4.5, mec = "b", mew= 1.5)  # starting point
         line = axes.plot(self.kft[0, index_kf, -1]*bObj.a, self.kft[1, index_kf, -1]*bObj.b)
         plt.setp(line, ls ="", c = 'b', lw = 1, marker = "o", mfc = 'b', ms = 5, mec = "#7E2320", mew= 0)  # end point
-- 
2.43.0


From 93670a176162f7c835f18bce1e4c40f93314f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 41/46] fix: resistivity axis of the angle scan figure when it
 is not normalized at its first angle

---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 9c05174..dfc8f9f 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -242,7 +242,8 @@ class ADMR:
         axes.set_xlabel(r"$\theta$ ( $^{\circ}$ )", labelpad = 8)
         axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( " + str(self.Btheta_norm) + " )", labelpad = 8)
         ymin, ymax = axes.axis()[2:]
-        axes2.set_ylim(ymin * self.rhozz_array[0, 0] * 1e5, ymax * self.rhozz_array[0, 0] * 1e5)
+        rhozz_norm = self.rhozz_array[0, 0] / self.rzz_array[0, 0] # of the first azimuth
+        axes2.set_ylim(ymin * rhozz_norm * 1e5, ymax * rhozz_norm * 1e5)
         axes2.set_ylabel(r"$\rho_{\rm zz}$ ( m$\Omega$ cm )", labelpad = 40, rotation = 270)
 
         axes.legend(loc = 0, fontsize = 14, frameon = False, numpoints = 1, markerscale = 1, handletextpad = 0.5)
-- 
2.43.0


From 14a28123936ef6053a6d8ad282697d6422740741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 42/46] fix: units of the resistivity in the figure of the
 multi-temperature fit

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index a2840b3..cd8762b 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -262,8 +262,8 @@ class Fitness:
                 data = self.rzz_data_dict[T]
                 sim = self.rzz_sim_dict[T]
             else:
-                data = self.rhozz_data_dict[T]
-                sim = self.rhozz_sim_dict[T]
+                data = self.rhozz_data_dict[T] * 1e5 # in mOhm.cm
+                sim = self.rhozz_sim_dict[T] * 1e5
                 axes.set_ylabel(r"$\rho_{\rm zz}$ ( m$\Omega$ cm )", labelpad = 8)
             ## Plotting
             for i, phi in enumerate(self.phis_dict[T]):
-- 
2.43.0


From 93676388a960f0f2b1e13af4abb310082ff86510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 43/46] fix: figures of fits with more than six azimuths

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 +-
 cuprates_transport/fitting_admr_parallel_oneT.py   | 2 +-
 cuprates_transport/fitting_admr_series_multi_T.py  | 2 +-
 cuprates_transport/fitting_admr_series_oneT.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index cd8762b..d1799ea 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -255,7 +255,7 @@ class Fitness:
             fig.text(0.84,0.84, r"$T$ = " + str(T) + " K", fontsize=14)
             # fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject.totalHoleDoping), fontsize=14)
             # Colors
-            colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00']
+            colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00'] * (1 + len(self.phis_dict[T]) // 6)
             ## Select if normalized or not
             if self.normalized_data==True:
                 axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index a992c38..8f2b855 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -271,7 +271,7 @@ class FittingADMRParallel:
         #############################################
 
 
-        colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00']
+        colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00'] * (1 + len(self.Bphi_array) // 6)
 
         if self.normalized_data==True:
             axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 5b56343..f0d2064 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -353,7 +353,7 @@ class FittingADMR:
             #############################################
 
 
-            colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00']
+            colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00'] * (1 + len(self.Bphi_dict[T]) // 6)
 
             if self.normalized_data==True:
                 axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index af799ec..00a7d59 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -308,7 +308,7 @@ class FittingADMR:
         #############################################
 
 
-        colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00']
+        colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00'] * (1 + len(self.Bphi_array) // 6)
 
         if self.normalized_data==True:
             axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
-- 
2.43.0


From 56aa8bd0a96cf5ba6905a0a7f0d90588ead47552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 44/46] fix: no contour in the figures for planes without Fermi
 surface

---
 cuprates_transport/bandstructure.py | 8 ++++----
 cuprates_transport/conductivity.py  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 531ae0a..4120ba6 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -465,7 +465,7 @@ class BandStructure:
         kx = np.linspace(-self.k_max[0] / self.a, self.k_max[0] / self.a, mesh_graph)
         ky = np.linspace(-self.k_max[1] / self.b, self.k_max[1] / self.b, mesh_graph)
         kxx, kyy = np.meshgrid(kx, ky, indexing = 'ij')
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), 0, colors = '#FF0000', linewidths = 3) # problem for orthorhombic
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), [0], colors = '#FF0000', linewidths = 3) # problem for orthorhombic
         ## k-points, those of the last plane
         first = self.kf.shape[1] - self.number_of_points_per_kz_list[-1]
         line = axes.plot(self.kf[0,first:] * self.a,
@@ -573,9 +573,9 @@ class BandStructure:
         n, p = self.n, self.p
         fig.text(0.76, 0.54, r"$p_{\rm tot}$ = " + str(np.round(self.doping(), 3)), fontsize = 18)
         self.n, self.p = n, p # a figure changes nothing
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 0), 0, colors = '#ff0000', linewidths = 3)
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/2/self.c), 0, colors = '#ee9c54', linewidths = 3)
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), 0, colors = '#f3d36b', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 0), [0], colors = '#ff0000', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/2/self.c), [0], colors = '#ee9c54', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), [0], colors = '#f3d36b', linewidths = 3)
         axes.set_xlim(-self.k_max[0], self.k_max[0])
         axes.set_ylim(-self.k_max[1], self.k_max[1])
         axes.tick_params(axis='x', which='major', pad=7)
diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 70e8eba..c9d139e 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -526,7 +526,7 @@ class Conductivity(Scattering):
         fig.subplots_adjust(left = 0.24, right = 0.87, bottom = 0.29, top = 0.91)
         fig.text(0.39,0.84, r"$k_{\rm z}$ = 0", ha = "right", fontsize = 16)
         line = axes.contour(kxx*bObj.a, kyy*bObj.b,
-                            bObj.energy_func(kxx, kyy, 0), 0, colors = '#FF0000', linewidths = 3)
+                            bObj.energy_func(kxx, kyy, 0), [0], colors = '#FF0000', linewidths = 3)
         line = axes.plot(self.kft[0, index_kf,:]*bObj.a, self.kft[1, index_kf,:]*bObj.b)
         plt.setp(line, ls ="-", c = 'b', lw = 1, marker = "", mfc = 'b', ms = 5, mec = "#7E2320", mew= 0) # trajectory
         line = axes.plot(self.kft[0, index_kf, 0]*bObj.a, self.kft[1, index_kf, 0]*bObj.b)
@@ -651,11 +651,11 @@ class Conductivity(Scattering):
         ## Inset FS /////////////////////////////////////////////////////////////#
         axes_FS = plt.axes([0, 0.56, .4, .4])
         axes_FS.contour(kxx*a, kyy*b, self.bandObject.energy_func(
-            kxx, kyy, 0), 0, colors='#ff0000', linewidths=1)
+            kxx, kyy, 0), [0], colors='#ff0000', linewidths=1)
         axes_FS.contour(kxx*a, kyy*b, self.bandObject.energy_func(
-            kxx, kyy, pi / c), 0, colors='#ee9c54', linewidths=1)
+            kxx, kyy, pi / c), [0], colors='#ee9c54', linewidths=1)
         axes_FS.contour(kxx*a, kyy*b, self.bandObject.energy_func(
-            kxx, kyy, 2 * pi / c), 0, colors='#f3d36b', linewidths=1)
+            kxx, kyy, 2 * pi / c), [0], colors='#f3d36b', linewidths=1)
         fig.text(0.33, 0.67, r"$k_{\rm z}$", fontsize=14)
         fig.text(0.33, 0.63, r"0", color='#ff0000', fontsize=14)
         fig.text(0.33, 0.60, r"$\pi$/c", color='#ee9c54', fontsize=14)
-- 
2.43.0


From 0e4fbfdc9970c187d662c39267f8e33e165a7a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 45/46] fix: time grid had one step too many for some numbers
 of steps and lifetimes (rounding of arange)

---
 cuprates_transport/conductivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index c9d139e..ddfe1aa 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -118,7 +118,7 @@ class Conductivity(Scattering):
         if self.time_max is None: # not run yet, reset_time() will do it
             return
         self.dtime = self.time_max / self._N_time
-        self.time_array = np.arange(0, self.time_max, self.dtime)
+        self.time_array = self.dtime * np.arange(self._N_time)
         # integrand for tau_function
         self.dtime_array = np.append(0, self.dtime * np.ones_like(self.time_array))[:-1]
     N_time = property(_get_N_time, _set_N_time)
@@ -189,7 +189,7 @@ class Conductivity(Scattering):
         # Time parameters
         self.time_max = 8 * self.tau_total_max()  # in picoseconds
         self.dtime = self.time_max / self.N_time
-        self.time_array = np.arange(0, self.time_max, self.dtime)
+        self.time_array = self.dtime * np.arange(self._N_time)
         self.dtime_array = np.append(0, self.dtime * np.ones_like(self.time_array))[:-1] # integrand for tau_function
 
     def B_func(self):
-- 
2.43.0


From 5824880aaac0b205d1fc03195c8f4cd87c78033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 46/46] fix: density of states counted every Brillouin zone of
 the box, unlike filling and conductivity

---
 cuprates_transport/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 4120ba6..5a1ea9c 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -298,7 +298,8 @@ class BandStructure:
             - dkf in Angstrom^-2
         """
         prefactor =  2 / (2*pi)**3 # factor 2 for the spin
-        self.dos_epsilon = prefactor * np.sum(self.dkf / Angstrom**2 * self.dos_k)
+        self.dos_epsilon = (prefactor / self.number_of_bz *
+                            np.sum(self.dkf / Angstrom**2 * self.dos_k))
 
 
     ## Marching algorithms ------------------------------------------------------#
-- 
2.43.0

