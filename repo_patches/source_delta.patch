From 122b94dc2b400b5f7b1635f4e43c25938e8ff5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 01/37] fix: use z_cell (not r_cell) for the upper z boundary
 in linear deposition

---
 wake_t/particles/deposition.py                                  | 2 +-
 .../plasma_wakefields/qs_rz_baxevanis/deposition.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wake_t/particles/deposition.py b/wake_t/particles/deposition.py
index 33e1dda..b3a1eaa 100644
--- a/wake_t/particles/deposition.py
+++ b/wake_t/particles/deposition.py
@@ -117,7 +117,7 @@ def deposit_3d_distribution_linear(z, x, y, q, z_min, r_min, nz, nr, dz, dr,
             if z_cell < 0:
                 # Force all charge to be deposited above z_min.
                 u_z = 1.
-            elif r_cell > nz - 1:
+            elif z_cell > nz - 1:
                 # Force all charge to be deposited below z_max.
                 u_z = 0.
             else:
diff --git a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
index a4938a9..5b302df 100644
--- a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
+++ b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
@@ -87,7 +87,7 @@ def deposit_plasma_particles_linear(z_cell, r, q, z_min, r_min, nz, nr, dz, dr,
             if z_cell < 0:
                 # Force all charge to be deposited above z_min.
                 u_z = 1.
-            elif r_cell > nz - 1:
+            elif z_cell > nz - 1:
                 # Force all charge to be deposited below z_max.
                 u_z = 0.
             else:
-- 
2.43.0


From feba302372794c2694917faff4c554b45da1973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 02/37] fix: gather finite transverse fields for particles on
 axis

---
 wake_t/particles/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wake_t/particles/interpolation.py b/wake_t/particles/interpolation.py
index 7bfe378..b86b79d 100644
--- a/wake_t/particles/interpolation.py
+++ b/wake_t/particles/interpolation.py
@@ -124,7 +124,8 @@ def gather_main_fields_cyl_linear(
         y_i = y[i]
         z_i = z[i]
         r_i = math.sqrt(x_i**2 + y_i**2)
-        inv_r_i = 1./r_i
+        # On axis, the transverse components vanish.
+        inv_r_i = 1./r_i if r_i > 0. else 0.
 
         # Gather field only if particle is within field boundaries.
         if z_i >= z_min and z_i <= z_max and r_i <= r_max:
-- 
2.43.0


From 5c2b25089d707069f5acc36be5c289fbff07d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 03/37] fix: read stored bunch parameters with h5py >= 3

---
 wake_t/diagnostics/bunch_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/diagnostics/bunch_analysis.py b/wake_t/diagnostics/bunch_analysis.py
index b25d119..0f06d34 100644
--- a/wake_t/diagnostics/bunch_analysis.py
+++ b/wake_t/diagnostics/bunch_analysis.py
@@ -89,7 +89,7 @@ def read_parameters_from_file(file_path):
     bunch_params = {}
     with H5File(file_path, 'r') as h5_file:
         for param in h5_file.keys():
-            bunch_params[param] = h5_file.get(param).value
+            bunch_params[param] = h5_file.get(param)[()]
     return bunch_params
 
 
-- 
2.43.0


From 8d3336888507fed56f2b0fb8ab1dcfd56871f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 04/37] fix: do not keep the average gamma of the first tracked
 bunch as the reference of a TM element

---
 wake_t/beamline_elements/tm_elements.py | 36 ++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index bf1647d..6566733 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -110,9 +110,7 @@ class TMElement():
 
         """
         # Convert bunch to ocelot units and reference frame
-        bunch_mat, g_avg = self._get_beam_matrix_for_tracking(bunch)
-        if self.gamma_ref is None:
-            self.gamma_ref = g_avg
+        bunch_mat, gamma_ref = self._get_beam_matrix_for_tracking(bunch)
 
         # Add element to CSR calculator
         if self.csr_on:
@@ -133,7 +131,7 @@ class TMElement():
             print('')
             print(self.element_name.capitalize())
             print('-'*len(self.element_name))
-            self._print_element_properties()
+            self._print_element_properties(gamma_ref)
             csr_string = 'on' if self.csr_on else 'off'
             print('CSR {}.'.format(csr_string))
             print('')
@@ -155,15 +153,15 @@ class TMElement():
             # Track with transfer matrix
             bunch_mat = track_with_transfer_map(
                 bunch_mat, l_step, self.length, -self.theta, self.k1, self.k2,
-                self.gamma_ref, order=self.order)
+                gamma_ref, order=self.order)
             # Apply CSR
             if self.csr_on:
                 self.csr_calculator.apply_csr(bunch_mat, bunch.q,
-                                              self.gamma_ref, self, l_curr)
+                                              gamma_ref, self, l_curr)
             # Add bunch to output list
             if i in output_steps:
                 new_bunch_mat = convert_from_ocelot_matrix(
-                    bunch_mat, self.gamma_ref)
+                    bunch_mat, gamma_ref)
                 new_bunch = self._create_new_bunch(
                     bunch, new_bunch_mat, l_curr)
                 output_bunch_list.append(new_bunch)
@@ -172,7 +170,8 @@ class TMElement():
                         l_curr/ct.c, l_step/ct.c, [output_bunch_list[-1]])
 
         # Update bunch data
-        self._update_input_bunch(bunch, bunch_mat, output_bunch_list)
+        self._update_input_bunch(
+            bunch, bunch_mat, output_bunch_list, gamma_ref)
 
         # Add element length to diagnostics position
         if opmd_diag is not None:
@@ -218,10 +217,11 @@ class TMElement():
             output_steps = []
         return l_step, track_steps, output_steps
 
-    def _update_input_bunch(self, bunch, bunch_mat, output_bunch_list):
+    def _update_input_bunch(
+            self, bunch, bunch_mat, output_bunch_list, gamma_ref):
         if len(output_bunch_list) == 0:
             new_bunch_mat = convert_from_ocelot_matrix(
-                bunch_mat, self.gamma_ref)
+                bunch_mat, gamma_ref)
             last_bunch = self._create_new_bunch(bunch, new_bunch_mat,
                                                 self.length)
         else:
@@ -266,7 +266,7 @@ class TMElement():
         new_bunch.x_ref = new_x_ref
         return new_bunch
 
-    def _print_element_properties(self):
+    def _print_element_properties(self, gamma_ref):
         "To be implemented by each element. Prints the element properties"
         raise NotImplementedError
 
@@ -306,7 +306,7 @@ class Drift(TMElement):
         super().__init__(length, 0, 0, 0, gamma_ref, csr_on, n_out, order)
         self.element_name = 'drift'
 
-    def _print_element_properties(self):
+    def _print_element_properties(self, gamma_ref):
         print('Length = {:1.4f} m'.format(self.length))
 
 
@@ -349,9 +349,9 @@ class Dipole(TMElement):
         super().__init__(length, theta, 0, 0, gamma_ref, csr_on, n_out, order)
         self.element_name = 'dipole'
 
-    def _print_element_properties(self):
+    def _print_element_properties(self, gamma_ref):
         ang_deg = self.theta * 180/ct.pi
-        b_field = (ct.m_e*ct.c/ct.e) * self.theta*self.gamma_ref/self.length
+        b_field = (ct.m_e*ct.c/ct.e) * self.theta*gamma_ref/self.length
         print('Bending angle = {:1.4f} rad ({:1.4f} deg)'.format(
             self.theta, ang_deg))
         print('Dipole field = {:1.4f} T'.format(b_field))
@@ -395,8 +395,8 @@ class Quadrupole(TMElement):
         super().__init__(length, 0, k1, 0, gamma_ref, csr_on, n_out, order)
         self.element_name = 'quadrupole'
 
-    def _print_element_properties(self):
-        g = self.k1 * self.gamma_ref*(ct.m_e*ct.c/ct.e)
+    def _print_element_properties(self, gamma_ref):
+        g = self.k1 * gamma_ref*(ct.m_e*ct.c/ct.e)
         print('Quadrupole gradient = {:1.4f} T/m'.format(g))
 
 
@@ -438,6 +438,6 @@ class Sextupole(TMElement):
         super().__init__(length, 0, 0, k2, gamma_ref, csr_on, n_out, order)
         self.element_name = 'sextupole'
 
-    def _print_element_properties(self):
-        g = self.k2 * self.gamma_ref*(ct.m_e*ct.c/ct.e)
+    def _print_element_properties(self, gamma_ref):
+        g = self.k2 * gamma_ref*(ct.m_e*ct.c/ct.e)
         print('Sextupole gradient = {:1.4f} T/m^2'.format(g))
-- 
2.43.0


From 91e425d02975da86ac32bd8058d1c6464243bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 05/37] fix: clear also the step sizes of the lattice elements
 in the CSR calculator

---
 wake_t/physics_models/collective_effects/csr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 098b0d8..2a5869d 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -52,6 +52,7 @@ class CSRCalculator():
         self._ref_traj = None
         self._lattice_elements = []
         self._lattice_element_steps = []
+        self._lattice_element_traj_steps = []
 
     def apply_csr(self, bunch_matrix, bunch_q, gamma, element, element_pos):
         """
-- 
2.43.0


From 46a98aea2d7f002166ef5e63d077ab972669abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 06/37] fix: track the whole element length with CSR regardless
 of rounding errors

---
 wake_t/beamline_elements/tm_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 6566733..d187e11 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -205,7 +205,7 @@ class TMElement():
             frac_out = 0
         if self.csr_on:
             csr_track_step = self.csr_calculator.get_csr_step(self)
-            n_csr = int(self.length / csr_track_step)
+            n_csr = int(round(self.length / csr_track_step))
             if self.n_out is not None:
                 frac_out = int(n_csr / self.n_out)
             l_step = csr_track_step
-- 
2.43.0


From b728a58e40d9e86197634d247f165262b917ffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 07/37] fix: allow tracking without diagnostics (n_diags=0)

---
 wake_t/tracking/tracker.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 0a3600e..2f8d24c 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -130,9 +130,9 @@ class Tracker():
             self.objects_to_track.append('diags')
             self.dt_diags = self.t_final/self.n_diags
             self.dt_objects.append(self.dt_diags)
-            self.bunch_list = []
-            for bunch in bunches:
-                self.bunch_list.append([])
+        self.bunch_list = []
+        for bunch in bunches:
+            self.bunch_list.append([])
 
         # Initialize tracking time.
         self.t_tracking = 0.
@@ -164,7 +164,8 @@ class Tracker():
             field.update(self.bunches)
 
         # Generate initial diagnostics.
-        self.generate_diagnostics()
+        if self.n_diags > 0:
+            self.generate_diagnostics()
 
         # Allocate arrays containing the time step and current time of all
         # objects during tracking.
-- 
2.43.0


From 65ddd4b3aac98849b003317d28c5a315bfbe13bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 08/37] fix: push bunches to the end of the element also if
 their time step is longer than it

---
 wake_t/tracking/tracker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 2f8d24c..aa06b14 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -179,6 +179,12 @@ class Tracker():
             else:
                 dt_objects[i] = dt
 
+        # Make sure that no bunch is pushed beyond (and, thus, that all of
+        # them reach) `t_final`.
+        n_bunches = len(self.bunches)
+        dt_objects[:n_bunches] = np.minimum(
+            dt_objects[:n_bunches], self.t_final)
+
         # Start tracking loop.
         while True:
 
-- 
2.43.0


From 90f90ef939ebae02df1be631a815913c3387fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 09/37] fix: restore the number of threads also if the tracking
 fails

---
 wake_t/tracking/tracker.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index aa06b14..0cd0b6b 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -151,7 +151,16 @@ class Tracker():
         # requested by Wake-T.
         num_threads_outside_waket = get_num_threads()
         set_num_threads(num_threads)
-
+        try:
+            return self._do_tracking()
+        finally:
+            # Reset the number of threads to the value outside of Wake-T.
+            # This should help avoiding Wake-T to affect the behavior of other
+            # applications that require a different number of threads.
+            set_num_threads(num_threads_outside_waket)
+
+    def _do_tracking(self) -> List[List[ParticleBunch]]:
+        """Do the tracking with the current number of threads."""
         # Initialize progress bar.
         progress_bar = get_progress_bar(
             description=self.section_name,
@@ -261,11 +270,6 @@ class Tracker():
         # Close progress bar.
         progress_bar.close()
 
-        # Reset the number of threads to the value outside of Wake-T.
-        # This should help avoiding Wake-T to affect the behavior of other
-        # applications that require a different number of threads.
-        set_num_threads(num_threads_outside_waket)
-
         return self.bunch_list
 
     def evolve_bunch(
-- 
2.43.0


From 4a28aca7fc187cca1adb06fc8bbe926c2154602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 10/37] fix: keep the tags, time of flight and injection
 position in copies of a bunch

---
 wake_t/particles/particle_bunch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 09e3018..01d6f8e 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -311,7 +311,10 @@ class ParticleBunch():
             px=deepcopy(self.px),
             py=deepcopy(self.py),
             pz=deepcopy(self.pz),
+            tags=deepcopy(self.tags),
             prop_distance=deepcopy(self.prop_distance),
+            t_flight=deepcopy(self.t_flight),
+            z_injection=deepcopy(self.z_injection),
             name=deepcopy(self.name),
             q_species=deepcopy(self.q_species),
             m_species=deepcopy(self.m_species)
-- 
2.43.0


From 4d1bc431da9ae1b85be361b75c0f508963af457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 11/37] fix: add (instead of overwriting) the blowout fields to
 the fields already gathered

---
 wake_t/physics_models/plasma_wakefields/custom_blowout.py   | 6 +++---
 wake_t/physics_models/plasma_wakefields/focusing_blowout.py | 4 ++--
 wake_t/physics_models/plasma_wakefields/simple_blowout.py   | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/wake_t/physics_models/plasma_wakefields/custom_blowout.py b/wake_t/physics_models/plasma_wakefields/custom_blowout.py
index 1f1a364..50c1b4d 100644
--- a/wake_t/physics_models/plasma_wakefields/custom_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/custom_blowout.py
@@ -38,12 +38,12 @@ class CustomBlowoutWakefield(AnalyticalField):
         def e_x(x, y, xi, t, ex, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k * x[i]
+                ex[i] += ct.c * k * x[i]
 
         def e_y(x, y, xi, t, ey, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k * y[i]
+                ey[i] += ct.c * k * y[i]
 
         def e_z(x, y, xi, t, ez, constants):
             e_z_0 = constants[1]
@@ -53,7 +53,7 @@ class CustomBlowoutWakefield(AnalyticalField):
 
             xi_off = - xi_fields + (1 - b_w) * ct.c * t
             for i in prange(x.shape[0]):
-                ez[i] = e_z_0 + e_z_p * (xi[i] + xi_off)
+                ez[i] += e_z_0 + e_z_p * (xi[i] + xi_off)
 
         super().__init__(e_x=e_x, e_y=e_y, e_z=e_z)
 
diff --git a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
index 23bc5ed..de59416 100644
--- a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
@@ -11,11 +11,11 @@ class FocusingBlowoutField(AnalyticalField):
 
         def e_x(x, y, xi, t, ex, k):
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k[i] * x[i]
+                ex[i] += ct.c * k[i] * x[i]
 
         def e_y(x, y, xi, t, ey, k):
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k[i] * y[i]
+                ey[i] += ct.c * k[i] * y[i]
 
         super().__init__(e_x=e_x, e_y=e_y)
 
diff --git a/wake_t/physics_models/plasma_wakefields/simple_blowout.py b/wake_t/physics_models/plasma_wakefields/simple_blowout.py
index 41caa13..85c2ea3 100644
--- a/wake_t/physics_models/plasma_wakefields/simple_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/simple_blowout.py
@@ -18,12 +18,12 @@ class SimpleBlowoutWakefield(AnalyticalField):
         def e_x(x, y, xi, t, ex, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k * x[i]
+                ex[i] += ct.c * k * x[i]
 
         def e_y(x, y, xi, t, ey, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k * y[i]
+                ey[i] += ct.c * k * y[i]
 
         def e_z(x, y, xi, t, ez, constants):
             e_z_p = constants[1]
@@ -35,7 +35,7 @@ class SimpleBlowoutWakefield(AnalyticalField):
             # Precalculate offset.
             xi_off = l_p/2 - l_c - field_off + (1-b_w)*ct.c*t
             for i in prange(x.shape[0]):
-                ez[i] = e_z_p * (xi[i] + xi_off)
+                ez[i] += e_z_p * (xi[i] + xi_off)
 
         super().__init__(e_x=e_x, e_y=e_y, e_z=e_z)
 
-- 
2.43.0


From e60eac2d397b03cda3d7415b4436af3e54a52b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 12/37] fix: solve the last row of the tridiagonal system in
 the envelope solver

---
 wake_t/physics_models/laser/tdma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/laser/tdma.py b/wake_t/physics_models/laser/tdma.py
index f41f9c5..42e8b68 100644
--- a/wake_t/physics_models/laser/tdma.py
+++ b/wake_t/physics_models/laser/tdma.py
@@ -42,7 +42,7 @@ def TDMA(a, b, c, d, p):
         g[i] = (d[i] - a_im1 * g[i - 1]) * inv_coef
         w[i] = c[i] * inv_coef
 
-    g[-1] = (d[-1] - a[-2] * g[-2]) / (b[-1] - a[-2] * w[-2])
+    g[-1] = (d[-1] - a[-1] * g[-2]) / (b[-1] - a[-1] * w[-1])
 
     # Fill in output array.
     p[-1] = g[-1]
-- 
2.43.0


From 1fa0c031ec51187bf4a116a0bcdcb05fba2d6d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 13/37] fix: keep the polarization of the laser pulses that are
 summed

---
 wake_t/physics_models/laser/laser_pulse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 7576e95..c82616d 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -338,7 +338,11 @@ class SummedPulse(LaserPulse):
             raise ValueError(
                 'Only laser pulses with the same central wavelength'
                 ' can currently be summed.')
-        super().__init__(pulse_1.l_0)
+        if pulse_1.polarization != pulse_2.polarization:
+            raise ValueError(
+                'Only laser pulses with the same polarization'
+                ' can currently be summed.')
+        super().__init__(pulse_1.l_0, pulse_1.polarization)
         self.pulse_1 = pulse_1
         self.pulse_2 = pulse_2
 
-- 
2.43.0


From 21927f02d424c1b881608b72d583024419686418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 14/37] fix: refuse any change of the laser envelope grid after
 its initialization

---
 wake_t/physics_models/laser/laser_pulse.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index c82616d..1c46946 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -125,13 +125,13 @@ class LaserPulse():
             'use_phase': use_phase
         }
         # Check if laser pulse has already been initialized.
-        if self.n_steps > 0:
+        if self.a_env is not None:
             # Check that grid parameters have not changed.
             if (
-                solver_params['zmin'] != self.solver_params['zmin'] and
-                solver_params['zmax'] != self.solver_params['zmax'] and
-                solver_params['rmax'] != self.solver_params['rmax'] and
-                solver_params['nz'] != self.solver_params['nz'] and
+                solver_params['zmin'] != self.solver_params['zmin'] or
+                solver_params['zmax'] != self.solver_params['zmax'] or
+                solver_params['rmax'] != self.solver_params['rmax'] or
+                solver_params['nz'] != self.solver_params['nz'] or
                 solver_params['nr'] != self.solver_params['nr']
             ):
                 raise ValueError(
-- 
2.43.0


From f68bd073cd7a7b22862422547db16d0351a0d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 15/37] fix: second-order terms of combined-function bending
 magnets

---
 wake_t/physics_models/beam_optics/transfer_matrices.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index 9fe4119..e393d99 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -133,13 +133,11 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     s2y = sy * cy
     c2y = np.cos(2 * ky * L).real
     fx = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
-    f2y = (L - s2y) / ky2 if ky2 != 0 else L3 / 6
+    f2y = (L - s2y) / (4 * ky2) if ky2 != 0 else L3 / 6
     J1 = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
     J2 = (3.*L - 4.*sx + sx*cx) / (2*kx4) if kx != 0 else L ** 5 / 20.
-    J3 = ((15*L - 22.5*sx + 9*sx*cx - 1.5*sx*cx*cx + kx2*sx2*sx) /
-          (6 * kx4 * kx2)) if kx != 0 else L ** 7 / 56.
-    # J3 = (15 * L - 22 * sx + 9 * sx * cx - 2 * sx * cx * cx ) / (
-    #        6 * kx4 * kx2) if kx != 0 else L ** 7 / 56.
+    J3 = (15 * L - 22 * sx + 9 * sx * cx - 2 * sx * cx * cx) / (
+        6 * kx4 * kx2) if kx != 0 else L ** 7 / 56.
     J_denom = kx2 - 4 * ky2
     Jc = (c2y - cx) / J_denom if J_denom != 0 else 0.5 * L2
     Js = (cy * sy - sx) / J_denom if J_denom != 0 else L3 / 6
-- 
2.43.0


From bcfea46e97f597875d2df0a9b8371a40dc1c15f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:05 +0000
Subject: [PATCH 16/37] fix: start from t=0 every time that a numerical field
 is tracked

---
 wake_t/fields/numerical_field.py | 3 ++-
 wake_t/tracking/tracker.py       | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/wake_t/fields/numerical_field.py b/wake_t/fields/numerical_field.py
index 6fe68f9..927419e 100644
--- a/wake_t/fields/numerical_field.py
+++ b/wake_t/fields/numerical_field.py
@@ -44,6 +44,7 @@ class NumericalField(Field):
     ) -> None:
         super().__init__(openpmd_diag_supported=openpmd_diag_supported)
         self.dt_update = dt_update
+        self._dt_update_input = dt_update
         self.force_even_updates = force_even_updates
         self.initialized = False
 
@@ -95,7 +96,7 @@ class NumericalField(Field):
     ) -> None:
         """Autoadjust the time step of the field update."""
         if self.force_even_updates:
-            n_updates = np.ceil(t_final / self.dt_update)
+            n_updates = np.ceil(t_final / self._dt_update_input)
             self.dt_update = t_final / n_updates
 
     def _initialize_properties(self, bunches):
diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 0cd0b6b..4dc0179 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -170,6 +170,8 @@ class Tracker():
 
         # Calculate fields at t=0.
         for field in self.num_fields:
+            # The field could have been already used in a previous tracking.
+            field.initialized = False
             field.update(self.bunches)
 
         # Generate initial diagnostics.
-- 
2.43.0


From fe2c2395af803c9db63191191ead4fe0f849c717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:46 +0000
Subject: [PATCH 17/37] fix: make the bunches returned by the TM elements
 complete, independent copies

---
 wake_t/beamline_elements/tm_elements.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index d187e11..475f979 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -1,6 +1,7 @@
 """ Contains the classes of all elements tracked using transfer matrices. """
 from typing import Optional, Union, List
 import time
+from copy import deepcopy
 
 import numpy as np
 import scipy.constants as ct
@@ -257,8 +258,12 @@ class TMElement():
             new_bunch_mat = np.dot(rot, new_bunch_mat)
         new_bunch_mat[0] += new_x_ref
         # create new bunch
-        new_bunch = ParticleBunch(old_bunch.w, bunch_matrix=new_bunch_mat,
+        new_bunch = ParticleBunch(deepcopy(old_bunch.w),
+                                  bunch_matrix=new_bunch_mat,
+                                  tags=deepcopy(old_bunch.tags),
                                   prop_distance=new_prop_dist,
+                                  t_flight=old_bunch.t_flight,
+                                  z_injection=old_bunch.z_injection,
                                   name=old_bunch.name,
                                   q_species=old_bunch.q_species,
                                   m_species=old_bunch.m_species)
-- 
2.43.0


From f34d43b306b99f235e168bd2907168c3cd37047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:46 +0000
Subject: [PATCH 18/37] fix: use the same definition of dp when getting and
 setting the alternative bunch matrix

---
 wake_t/particles/particle_bunch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 01d6f8e..8f8f4b8 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -223,8 +223,7 @@ class ParticleBunch():
         """
         g = np.sqrt(1 + self.px**2 + self.py**2 + self.pz**2)
         g_avg = np.average(g, weights=self.w)
-        b_avg = np.sqrt(1 - g_avg**(-2))
-        dp = (g-g_avg)/(g_avg*b_avg)
+        dp = (g-g_avg)/g_avg
         p_kin = np.sqrt(g**2 - 1)
         return np.array([self.x, self.px/p_kin, self.y, self.py/p_kin,
                          self.xi, dp]), g_avg
-- 
2.43.0


From 185942fb0f5740c2e15361947ca0aaece6459060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:58 +0000
Subject: [PATCH 19/37] fix: use the right position in the CSR trajectory if an
 element is repeated along the beamline

---
 .../physics_models/collective_effects/csr.py   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 2a5869d..ebd7a70 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -37,7 +37,7 @@ class CSRCalculator():
 
     def get_csr_step(self, element):
         """Return the CSR step size used in the specified lattice element."""
-        el_idx = self._lattice_elements.index(element)
+        el_idx = self._get_element_index(element)
         ds_csr, ds_traj = self._lattice_element_traj_steps[el_idx]
         return ds_csr
 
@@ -79,14 +79,12 @@ class CSRCalculator():
             element.
 
         """
-        el_idx = self._lattice_elements.index(element)
+        el_idx = self._get_element_index(element)
         ds_csr, ds_traj = self._lattice_element_traj_steps[el_idx]
 
         # Get current position along trajectory.
         s_current = 0
-        for el in self._lattice_elements:
-            if el is element:
-                break
+        for el in self._lattice_elements[:el_idx]:
             s_current += el.length
         s_current += element_pos
 
@@ -128,6 +126,14 @@ class CSRCalculator():
         delta_p = dE * 1e-9 / pc_ref
         bunch_matrix[5] += delta_p
 
+    def _get_element_index(self, element):
+        """
+        Return the index of the last time that the given element was added.
+
+        """
+        return (len(self._lattice_elements) - 1
+                - self._lattice_elements[::-1].index(element))
+
     def _set_element_steps(self, element):
         """
         Calculate and store the csr and trajectory step size for the
@@ -156,7 +162,7 @@ class CSRCalculator():
         M. Dohlus.
 
         """
-        el_idx = self._lattice_elements.index(element)
+        el_idx = self._get_element_index(element)
         ds_csr, ds_traj = self._lattice_element_traj_steps[el_idx]
         n_steps = int(np.ceil(element.length / ds_traj))
         ds_traj = element.length / n_steps
-- 
2.43.0


From 9803aed3694fba8e2f9519cc242f3eedc4ad8fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:58 +0000
Subject: [PATCH 20/37] fix: allow tracking in a generic TMElement with the
 progress output enabled

---
 wake_t/beamline_elements/tm_elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 475f979..1ceb121 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -272,8 +272,8 @@ class TMElement():
         return new_bunch
 
     def _print_element_properties(self, gamma_ref):
-        "To be implemented by each element. Prints the element properties"
-        raise NotImplementedError
+        "Prints the element properties. Can be overwritten by each element"
+        print('Length = {:1.4f} m'.format(self.length))
 
 
 class Drift(TMElement):
-- 
2.43.0


From c338b7c6d80de6818f250e54dd91e5b73c4c822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:58 +0000
Subject: [PATCH 21/37] fix: apply the inverse transfer map when backtracking
 through a TM element

---
 wake_t/beamline_elements/tm_elements.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 1ceb121..f96b0c8 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -16,7 +16,6 @@ from wake_t.diagnostics import OpenPMDDiagnostics
 
 
 class TMElement():
-    # TODO: fix backtracking issues.
     """
     Base class for all elements where the tracking is performed using
     transfer maps. It can also be used to define an arbitrary element
@@ -140,6 +139,7 @@ class TMElement():
             st_0 = 'Tracking in {} step(s)... '.format(n_steps)
 
         # Start tracking
+        direction = -1 if backtrack else 1
         start_time = time.time()
         output_bunch_list = list()
         if out_initial:
@@ -150,11 +150,11 @@ class TMElement():
         for i in track_steps:
             if show_progress_bar:
                 print_progress_bar(st_0, i+1, n_steps)
-            l_curr = (i+1) * l_step * (1-2*backtrack)
+            l_curr = (i+1) * l_step * direction
             # Track with transfer matrix
             bunch_mat = track_with_transfer_map(
-                bunch_mat, l_step, self.length, -self.theta, self.k1, self.k2,
-                gamma_ref, order=self.order)
+                bunch_mat, direction*l_step, self.length, -self.theta,
+                self.k1, self.k2, gamma_ref, order=self.order)
             # Apply CSR
             if self.csr_on:
                 self.csr_calculator.apply_csr(bunch_mat, bunch.q,
@@ -172,11 +172,11 @@ class TMElement():
 
         # Update bunch data
         self._update_input_bunch(
-            bunch, bunch_mat, output_bunch_list, gamma_ref)
+            bunch, bunch_mat, output_bunch_list, gamma_ref, direction)
 
         # Add element length to diagnostics position
         if opmd_diag is not None:
-            opmd_diag.increase_z_pos(self.length)
+            opmd_diag.increase_z_pos(direction * self.length)
 
         # Finalize
         if show_progress_bar:
@@ -219,12 +219,12 @@ class TMElement():
         return l_step, track_steps, output_steps
 
     def _update_input_bunch(
-            self, bunch, bunch_mat, output_bunch_list, gamma_ref):
+            self, bunch, bunch_mat, output_bunch_list, gamma_ref, direction):
         if len(output_bunch_list) == 0:
             new_bunch_mat = convert_from_ocelot_matrix(
                 bunch_mat, gamma_ref)
             last_bunch = self._create_new_bunch(bunch, new_bunch_mat,
-                                                self.length)
+                                                direction * self.length)
         else:
             last_bunch = output_bunch_list[-1].copy()
         bunch.set_phase_space(last_bunch.x, last_bunch.y, last_bunch.xi,
@@ -241,7 +241,7 @@ class TMElement():
             rho = abs(self.length/self.theta)
             # new reference angle and transverse displacement
             new_theta_ref = old_bunch.theta_ref + theta_step
-            sign = -theta_step/abs(theta_step)
+            sign = -self.theta/abs(self.theta)
             new_x_ref = (
                 old_bunch.x_ref +
                 sign*rho*(np.cos(new_theta_ref)-np.cos(old_bunch.theta_ref)))
-- 
2.43.0


From 6a3e45483766af4fbd4c04d6c91e8ffc5291f729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:59 +0000
Subject: [PATCH 22/37] fix: do not fail when there is nothing to track (no
 bunches, fields or outputs)

---
 wake_t/tracking/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 4dc0179..729455e 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -197,7 +197,7 @@ class Tracker():
             dt_objects[:n_bunches], self.t_final)
 
         # Start tracking loop.
-        while True:
+        while len(self.objects_to_track) > 0:
 
             # Calculate next time of all objects.
             t_next_objects = t_objects + dt_objects
-- 
2.43.0


From e8732b94110a02b422b4a8ca0e956337572caecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:17:52 +0000
Subject: [PATCH 23/37] fix: update the tracked bunch in TM elements if only
 the initial output is requested

---
 wake_t/beamline_elements/tm_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index f96b0c8..b02902b 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -220,7 +220,7 @@ class TMElement():
 
     def _update_input_bunch(
             self, bunch, bunch_mat, output_bunch_list, gamma_ref, direction):
-        if len(output_bunch_list) == 0:
+        if self.n_out is None:
             new_bunch_mat = convert_from_ocelot_matrix(
                 bunch_mat, gamma_ref)
             last_bunch = self._create_new_bunch(bunch, new_bunch_mat,
-- 
2.43.0


From cfa65c5a93755e8c569c6e8d1845199184e00947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:28 +0000
Subject: [PATCH 24/37] fix: reallocate the auxiliary arrays of a bunch if its
 number of particles changes

---
 wake_t/particles/particle_bunch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 8f8f4b8..b01e53e 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -324,7 +324,9 @@ class ParticleBunch():
 
     def get_field_arrays(self):
         """Get the arrays where the gathered fields will be stored."""
-        if not self.__field_arrays_allocated:
+        # Reallocate also if the number of particles has changed.
+        if (not self.__field_arrays_allocated or
+                len(self.__e_x) != len(self.x)):
             self.__preallocate_field_arrays()
         return (
             self.__e_x, self.__e_y, self.__e_z,
@@ -333,7 +335,9 @@ class ParticleBunch():
 
     def get_rk4_arrays(self):
         """Get the arrays needed by the RK4 pusher."""
-        if not self.__rk4_arrays_allocated:
+        # Reallocate also if the number of particles has changed.
+        if (not self.__rk4_arrays_allocated or
+                len(self.__x_rk4) != len(self.x)):
             self.__preallocate_rk4_arrays()
         return (
             self.__x_rk4, self.__y_rk4, self.__xi_rk4,
-- 
2.43.0


From ce55bba8cb59566a6cc4f968b0f937002b6634a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:47 +0000
Subject: [PATCH 25/37] fix: limit of the second-order terms of
 combined-function magnets with kx2 = 4*ky2

---
 .../beam_optics/transfer_matrices.py          | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index e393d99..cf84603 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -139,10 +139,22 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     J3 = (15 * L - 22 * sx + 9 * sx * cx - 2 * sx * cx * cx) / (
         6 * kx4 * kx2) if kx != 0 else L ** 7 / 56.
     J_denom = kx2 - 4 * ky2
-    Jc = (c2y - cx) / J_denom if J_denom != 0 else 0.5 * L2
-    Js = (cy * sy - sx) / J_denom if J_denom != 0 else L3 / 6
-    Jd = (d2y - dx) / J_denom if J_denom != 0 else L4 / 24
-    Jf = (f2y - fx) / J_denom if J_denom != 0 else L5 / 120
+    if np.abs(J_denom) > 1e-9 * (np.abs(kx2) + 4 * np.abs(ky2)):
+        Jc = (c2y - cx) / J_denom
+        Js = (cy * sy - sx) / J_denom
+        Jd = (d2y - dx) / J_denom
+        Jf = (f2y - fx) / J_denom
+    elif kx2 != 0:
+        # Limit for kx2 = 4*ky2.
+        Jc = 0.5 * L * sx
+        Js = (sx - L * cx) / (2 * kx2)
+        Jd = (dx - 0.5 * L * sx) / kx2
+        Jf = (L - 1.5 * sx + 0.5 * L * cx) / kx4
+    else:
+        Jc = 0.5 * L2
+        Js = L3 / 6
+        Jd = L4 / 24
+        Jf = L5 / 120
 
     khk = K2 + 2*h*K1
     T = np.zeros((6, 6, 6))
-- 
2.43.0


From b290ef4a2fe3e26bcc00a859289cd96051f8c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:41 +0000
Subject: [PATCH 26/37] fix: CSR of a bunch that enters a bend from a straight
 path

The transverse offset between the observer and the incoming path was ignored
if it was small compared to the distance to the farthest (instead of the
closest) emission point, i.e. nearly always.
---
 wake_t/physics_models/collective_effects/csr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index ebd7a70..579a337 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -375,7 +375,7 @@ class CSRCalculator():
               (beta_sq * np.dot(ev1, evo) - 1.) * np.log(
                   (winf - s + R) / (winf - s[0] + R[0])) +
               gamma_sq_inv * np.log(w_range[0]/w_range))
-        if a2/R[1]**2 > 1e-7:
+        if a != 0:
             KS -= (beta * np.dot(uup, evo) *
                    (np.arctan((s[0] - winf)/a) - np.arctan((s-winf)/a)))
         return KS
-- 
2.43.0


From 07df87a482b7eadbf92fc637816ad023ae54dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:44 +0000
Subject: [PATCH 27/37] fix: sign of the CSR kick for negative particles and
 its value for other species

The charge of an electron bunch is negative, so that the bunch gained (instead
of losing) energy. The electron rest energy was assumed for every species.
---
 wake_t/beamline_elements/tm_elements.py         |  4 +++-
 wake_t/physics_models/collective_effects/csr.py | 11 +++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index b02902b..a103c8d 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -158,7 +158,9 @@ class TMElement():
             # Apply CSR
             if self.csr_on:
                 self.csr_calculator.apply_csr(bunch_mat, bunch.q,
-                                              gamma_ref, self, l_curr)
+                                              gamma_ref, self, l_curr,
+                                              bunch.q_species,
+                                              bunch.m_species)
             # Add bunch to output list
             if i in output_steps:
                 new_bunch_mat = convert_from_ocelot_matrix(
diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 579a337..5a59070 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -54,7 +54,8 @@ class CSRCalculator():
         self._lattice_element_steps = []
         self._lattice_element_traj_steps = []
 
-    def apply_csr(self, bunch_matrix, bunch_q, gamma, element, element_pos):
+    def apply_csr(self, bunch_matrix, bunch_q, gamma, element, element_pos,
+                  q_species=-ct.e, m_species=ct.m_e):
         """
         Apply the CSR kick to the specified particle bunch at a certain
         lattice location.
@@ -77,6 +78,8 @@ class CSRCalculator():
         element_pos : float
             Current position (longitudinal) of the bunch in the lattice
             element.
+        q_species, m_species : float
+            Charge and mass of a single particle of the species.
 
         """
         el_idx = self._get_element_index(element)
@@ -121,9 +124,9 @@ class CSRCalculator():
 
         # Calculate and apply energy kick
         z_norm = z * (1./bin_size) - bin_center_0/bin_size
-        dE = np.interp(z_norm, np.arange(len(lam_K1)), lam_K1)
-        pc_ref = np.sqrt(gamma**2 - 1) * 0.511e-3
-        delta_p = dE * 1e-9 / pc_ref
+        dV = np.interp(z_norm, np.arange(len(lam_K1)), lam_K1)
+        pc_ref = np.sqrt(gamma**2 - 1) * m_species * ct.c**2
+        delta_p = q_species * dV / pc_ref
         bunch_matrix[5] += delta_p
 
     def _get_element_index(self, element):
-- 
2.43.0


From 4fc1522ec9f25454866657be208c5a457ca71be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:30 +0000
Subject: [PATCH 28/37] fix: leave the laser pulse unchanged if its new grid
 parameters are refused

---
 wake_t/physics_models/laser/laser_pulse.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 1c46946..e73aa59 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -107,19 +107,17 @@ class LaserPulse():
                 'Number of laser envelope substeps cannot be smaller than 1.')
 
         # Determine whether to run laser envelope in a subgrid.
-        self.use_subgrid = subgrid_nz is not None or subgrid_nr is not None
-        if self.use_subgrid:
+        use_subgrid = subgrid_nz is not None or subgrid_nr is not None
+        if use_subgrid:
             subgrid_nz = nz if subgrid_nz is None else subgrid_nz
             subgrid_nr = nr if subgrid_nr is None else subgrid_nr
-            self._create_laser_subgrid(
-                nz, nr, subgrid_nz, subgrid_nr, xi_max, xi_min, r_max)
 
         solver_params = {
             'zmin': xi_min,
             'zmax': xi_max,
             'rmax': r_max,
-            'nz': subgrid_nz if self.use_subgrid else nz,
-            'nr': subgrid_nr if self.use_subgrid else nr,
+            'nz': subgrid_nz if use_subgrid else nz,
+            'nr': subgrid_nr if use_subgrid else nr,
             'nt': nt,
             'dt': dt / nt,
             'use_phase': use_phase
@@ -143,6 +141,10 @@ class LaserPulse():
             if solver_params['dt'] != self.solver_params['dt']:
                 self.n_steps = 0
         self.solver_params = solver_params
+        self.use_subgrid = use_subgrid
+        if self.use_subgrid:
+            self._create_laser_subgrid(
+                nz, nr, subgrid_nz, subgrid_nr, xi_max, xi_min, r_max)
 
     def initialize_envelope(self) -> None:
         """Initialize laser envelope arrays."""
-- 
2.43.0


From bfbc496b6f29ff1d72b96c38dcb5460cbe0dcb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 29/37] fix: adapt the output laser envelope if the plasma grid
 of the next stage is different

---
 wake_t/physics_models/laser/laser_pulse.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index e73aa59..fb2ee7d 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -165,7 +165,9 @@ class LaserPulse():
             self._a_env_old = np.zeros((nz + 2, nr), dtype=np.complex128)
             self._a_env = np.zeros((nz + 2, nr), dtype=np.complex128)
             self._a_env[0:-2] = self.envelope_function(ZZ, RR, 0.)
-            self._update_output_envelope()
+        # If the envelope was already initialized, the grid of the plasma (but
+        # not that of the laser) could have changed.
+        self._update_output_envelope()
 
     def get_envelope(self) -> np.ndarray:
         """Get the current laser envelope array."""
@@ -286,9 +288,9 @@ class LaserPulse():
         """ Update the publicly-accessible laser envelope array. """
         # If running on a subgrid, interpolate envelope array to main grid.
         if self.use_subgrid:
-            if self.a_env is None:
-                nz = self.subgrid_params['grid']['nz']
-                nr = self.subgrid_params['grid']['nr']
+            nz = self.subgrid_params['grid']['nz']
+            nr = self.subgrid_params['grid']['nr']
+            if self.a_env is None or self.a_env.shape != (nz, nr):
                 self.a_env = np.zeros((nz, nr), dtype=np.complex128)
             z_min = self.subgrid_params['subgrid']['z_min']
             r_min = self.subgrid_params['subgrid']['r_min']
@@ -300,9 +302,9 @@ class LaserPulse():
                 self._a_env[0:-2], z_min, r_min, dz, dr, z_f, r_f, self.a_env)
         # Otherwise, simply remove guard cells.
         else:
-            if self.a_env is None:
-                nz = self.solver_params['nz']
-                nr = self.solver_params['nr']
+            nz = self.solver_params['nz']
+            nr = self.solver_params['nr']
+            if self.a_env is None or self.a_env.shape != (nz, nr):
                 self.a_env = np.zeros((nz, nr), dtype=np.complex128)
             self.a_env[:] = self._a_env[0: -2]
 
-- 
2.43.0


From c1b1d0b57ac8d2a2167dfde605fb8183dc69fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:00 +0000
Subject: [PATCH 30/37] fix: edge term of the longitudinal derivative of psi in
 parabolic plasma channels

When plasma particles leave the plasma column, the ion charge enclosed by the
column enters d(psi)/d(xi). For a parabolic profile it is
r_max**2/2 + pc*r_max**4/4 (as in dr_psi_eq), but the last term was
pc*r_max/4.
---
 .../plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
index e9d6642..aa178e6 100644
--- a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
+++ b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
@@ -153,7 +153,7 @@ def calculate_psi_and_derivatives_at_particles(
     if r_right <= r_max:
         dxi_psi_pp += sum_3
     else:
-        dxi_psi_pp += sum_3 - ((sum_1 - r_max**2/2 - pc*r_max/4)
+        dxi_psi_pp += sum_3 - ((sum_1 - r_max**2/2 - pc*r_max**4/4)
                                * pr_i / (r_right * (1 + psi_i)))
 
     # Again, near the peak of a strong blowout, very large and unphysical
-- 
2.43.0


From a9ce7b69cc62dbfd281362e0adea3a2f56ebaabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:37 +0000
Subject: [PATCH 31/37] fix: match bunches of any species to the plasma
 focusing

get_matched_bunch used the electron charge and mass for the matched beta
function of every species.
---
 wake_t/utilities/bunch_generation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wake_t/utilities/bunch_generation.py b/wake_t/utilities/bunch_generation.py
index 784489c..b24d575 100644
--- a/wake_t/utilities/bunch_generation.py
+++ b/wake_t/utilities/bunch_generation.py
@@ -243,6 +243,8 @@ def get_matched_bunch(
     if n_p is not None:
         n_p *= 1e-6
     b_m = ge.matched_plasma_beta_function(ene, n_p, k_x)
+    # The expression above is for electrons.
+    b_m *= np.sqrt(np.abs((m_species / ct.m_e) * (ct.e / q_species)))
     return get_gaussian_bunch_from_twiss(
         en_x, en_y, 0, 0, b_m, b_m, ene, ene_sp, s_t, xi_c, q_tot, n_part,
         x_off, y_off, theta_x, theta_y, name=name, q_species=q_species,
-- 
2.43.0


From 78cf90cdb2a5ea29f546a0eda5574110793f874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:48 +0000
Subject: [PATCH 32/37] fix: transfer maps of magnets with small or nearly
 cancelling focusing

The second-order terms (and the dispersion at first order) divide by powers
of kx2, ky2 and kx2-4*ky2. Close to, but not exactly at, zero (for example
theta=0.05, L=0.5, k1=-0.01, or k1=1e-9 with k2!=0) they were dominated by
round-off.
---
 .../beam_optics/transfer_matrices.py          | 71 ++++++++++++++-----
 1 file changed, 52 insertions(+), 19 deletions(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index cf84603..488581c 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -1,3 +1,5 @@
+from math import factorial
+
 import numpy as np
 
 
@@ -42,14 +44,13 @@ def first_order_matrix(z, L, theta, k1, gamma_ref):
     if gamma != 0:
         igamma2 = 1./(gamma*gamma)
     beta = np.sqrt(1. - igamma2)
-    if kx != 0:
-        sx = (np.sin(kx*z)/kx).real
+    sx = (np.sin(kx*z)/kx).real if kx != 0 else z
+    if np.abs(kx2)*z*z > 1.:
         dx = hx/kx2*(1. - cx)
         r56 = hx*hx*(z - sx)/kx2/beta**2
     else:
-        sx = z
-        dx = z*z*hx/2.
-        r56 = hx*hx*z**3/6./beta**2
+        dx = hx*_power_series(kx2, z, 2)
+        r56 = hx*hx*_power_series(kx2, z, 3)/beta**2
     r56 -= z/(beta*beta)*igamma2
     u_matrix = np.array([[cx, sx, 0., 0., 0., dx/beta],
                          [-kx2*sx, cx, 0., 0., 0., sx*hx/beta],
@@ -124,7 +125,11 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     L3 = L2*L
     L4 = L3*L
     L5 = L4*L
-    dx = (1. - cx)/kx2 if kx != 0. else L*L/2.
+    # Close to zero, the expressions with powers of `kx2` or `ky2` in the
+    # denominator are evaluated with their power series.
+    kx_small = np.abs(kx2) * L2 <= 1.
+    ky_small = 4 * np.abs(ky2) * L2 <= 1.
+    dx = (1. - cx)/kx2 if not kx_small else _power_series(kx2, L, 2)
     dx2 = dx * dx
     K1 = k1
     K2 = k2
@@ -132,29 +137,36 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     d2y = 0.5 * sy * sy
     s2y = sy * cy
     c2y = np.cos(2 * ky * L).real
-    fx = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
-    f2y = (L - s2y) / (4 * ky2) if ky2 != 0 else L3 / 6
-    J1 = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
-    J2 = (3.*L - 4.*sx + sx*cx) / (2*kx4) if kx != 0 else L ** 5 / 20.
-    J3 = (15 * L - 22 * sx + 9 * sx * cx - 2 * sx * cx * cx) / (
-        6 * kx4 * kx2) if kx != 0 else L ** 7 / 56.
+    fx = (L - sx) / kx2 if not kx_small else _power_series(kx2, L, 3)
+    f2y = ((L - s2y) / (4 * ky2) if not ky_small
+           else _power_series(4*ky2, L, 3))
+    J1 = fx
+    if not kx_small:
+        J2 = (3.*L - 4.*sx + sx*cx) / (2*kx4)
+        J3 = (15 * L - 22 * sx + 9 * sx * cx - 2 * sx * cx * cx) / (
+            6 * kx4 * kx2)
+    else:
+        J2 = _power_series(kx2, L, 5, lambda n: (4**(n+2) - 4) / 2)
+        J3 = -_power_series(
+            kx2, L, 7,
+            lambda n: (9*4**(n+3) - 22 - (3*9**(n+3) + 1) / 2) / 6)
     J_denom = kx2 - 4 * ky2
-    if np.abs(J_denom) > 1e-9 * (np.abs(kx2) + 4 * np.abs(ky2)):
+    if kx_small and ky_small:
+        Jc = _power_series_difference(kx2, 4*ky2, L, 0)
+        Js = _power_series_difference(kx2, 4*ky2, L, 1)
+        Jd = _power_series_difference(kx2, 4*ky2, L, 2)
+        Jf = _power_series_difference(kx2, 4*ky2, L, 3)
+    elif np.abs(J_denom) > 1e-9 * (np.abs(kx2) + 4 * np.abs(ky2)):
         Jc = (c2y - cx) / J_denom
         Js = (cy * sy - sx) / J_denom
         Jd = (d2y - dx) / J_denom
         Jf = (f2y - fx) / J_denom
-    elif kx2 != 0:
+    else:
         # Limit for kx2 = 4*ky2.
         Jc = 0.5 * L * sx
         Js = (sx - L * cx) / (2 * kx2)
         Jd = (dx - 0.5 * L * sx) / kx2
         Jf = (L - 1.5 * sx + 0.5 * L * cx) / kx4
-    else:
-        Jc = 0.5 * L2
-        Js = L3 / 6
-        Jd = L4 / 24
-        Jf = L5 / 120
 
     khk = K2 + 2*h*K1
     T = np.zeros((6, 6, 6))
@@ -266,3 +278,24 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     T[4, 2, 3] = -T534*2
     T[4, 3, 3] = -T544
     return T
+
+
+def _power_series(k2, z, m, coef=lambda n: 1.):
+    """
+    Evaluate the power series sum_n coef(n) (-k2)^n z^(2n+m) / (2n+m)!.
+
+    For m = 0, 1, 2, 3 (and coef = 1), this is cos(kz), sin(kz)/k,
+    (1 - cos(kz))/k^2 and (z - sin(kz)/k)/k^2. It should only be used for
+    abs(k2) * z**2 of the order of 1 or less.
+    """
+    return sum(coef(n) * (-k2)**n * z**(2*n+m) / factorial(2*n+m)
+               for n in range(16))
+
+
+def _power_series_difference(a2, b2, z, m):
+    """
+    Evaluate the divided difference (f(b2) - f(a2)) / (a2 - b2), where f(k2)
+    is `_power_series(k2, z, m)`.
+    """
+    return -sum(sum(a2**i * b2**(n-1-i) for i in range(n)) * (-1)**n *
+                z**(2*n+m) / factorial(2*n+m) for n in range(1, 16))
-- 
2.43.0


From 962655bc2896f3e5fab4c13d8d933e028d7ece82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:51 +0000
Subject: [PATCH 33/37] fix: allow straight transfer-map elements of zero
 length (the default)

---
 wake_t/beamline_elements/tm_elements.py                | 4 +++-
 wake_t/physics_models/beam_optics/transfer_matrices.py | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index a103c8d..488f97a 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -358,7 +358,9 @@ class Dipole(TMElement):
 
     def _print_element_properties(self, gamma_ref):
         ang_deg = self.theta * 180/ct.pi
-        b_field = (ct.m_e*ct.c/ct.e) * self.theta*gamma_ref/self.length
+        b_field = 0.
+        if self.theta != 0:
+            b_field = (ct.m_e*ct.c/ct.e) * self.theta*gamma_ref/self.length
         print('Bending angle = {:1.4f} rad ({:1.4f} deg)'.format(
             self.theta, ang_deg))
         print('Dipole field = {:1.4f} T'.format(b_field))
diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index 488581c..14e71b7 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -32,7 +32,7 @@ def first_order_matrix(z, L, theta, k1, gamma_ref):
 
     """
     gamma = gamma_ref
-    hx = theta/L
+    hx = theta/L if theta != 0 else 0.
     kx2 = (k1 + hx*hx)
     ky2 = -k1
     kx = np.sqrt(kx2 + 0.j)
@@ -104,7 +104,7 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     beta = np.sqrt(1. - igamma2)
     beta2 = beta * beta
     beta3 = beta2*beta
-    h = theta/L
+    h = theta/L if theta != 0 else 0.
     L = z  # Easy fix for the calculation below, where L should actually be z.
     h2 = h*h
     h3 = h2*h
-- 
2.43.0


From 99988f5558a3d77a5b5bc3744fc835f20b63fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:51 +0000
Subject: [PATCH 34/37] fix: do not loop forever when tracking through a field
 element of zero length

---
 wake_t/tracking/tracker.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 729455e..0ef5083 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -196,8 +196,13 @@ class Tracker():
         dt_objects[:n_bunches] = np.minimum(
             dt_objects[:n_bunches], self.t_final)
 
+        # If the element has no length, there is nothing to advance.
+        if self.t_final == 0.:
+            for _ in range(self.n_diags):
+                self.generate_diagnostics()
+
         # Start tracking loop.
-        while len(self.objects_to_track) > 0:
+        while len(self.objects_to_track) > 0 and self.t_final > 0.:
 
             # Calculate next time of all objects.
             t_next_objects = t_objects + dt_objects
-- 
2.43.0


From 8959ad3374c3dea6c1d5ad19aed0ee49061e8e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:39 +0000
Subject: [PATCH 35/37] fix: automatic time step with density profiles defined
 for a single position

---
 wake_t/beamline_elements/plasma_stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/plasma_stage.py b/wake_t/beamline_elements/plasma_stage.py
index ec9a83f..e3a25b5 100644
--- a/wake_t/beamline_elements/plasma_stage.py
+++ b/wake_t/beamline_elements/plasma_stage.py
@@ -145,7 +145,7 @@ class PlasmaStage(FieldElement):
         min_gamma = np.sqrt(np.min(beam.pz)**2 + 1)
         # calculate maximum focusing along stage.
         z = np.linspace(0, self.length, 100)
-        n_p = self.density(z)
+        n_p = [self.density(z_i) for z_i in z]
         q_over_m = beam.q_species / beam.m_species
         w_p = np.sqrt(max(n_p)*ct.e**2/(ct.m_e*ct.epsilon_0))
         max_kx = (ct.m_e/(2*ct.e*ct.c))*w_p**2
-- 
2.43.0


From 374dad9e9834fa1d18f7a11b1725ed05a94a6a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:39 +0000
Subject: [PATCH 36/37] fix: allow transfer-map elements without outputs
 (n_out=0)

---
 wake_t/beamline_elements/tm_elements.py         | 6 +++---
 wake_t/physics_models/collective_effects/csr.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 488f97a..56c599b 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -198,7 +198,7 @@ class TMElement():
         return convert_to_ocelot_matrix(bunch_mat, bunch.w, self.gamma_ref)
 
     def _determine_steps(self):
-        if self.n_out is not None:
+        if self.n_out:
             l_step = self.length/self.n_out
             n_track = self.n_out
             frac_out = 1
@@ -209,7 +209,7 @@ class TMElement():
         if self.csr_on:
             csr_track_step = self.csr_calculator.get_csr_step(self)
             n_csr = int(round(self.length / csr_track_step))
-            if self.n_out is not None:
+            if self.n_out:
                 frac_out = int(n_csr / self.n_out)
             l_step = csr_track_step
             n_track = n_csr
@@ -222,7 +222,7 @@ class TMElement():
 
     def _update_input_bunch(
             self, bunch, bunch_mat, output_bunch_list, gamma_ref, direction):
-        if self.n_out is None:
+        if not self.n_out:
             new_bunch_mat = convert_from_ocelot_matrix(
                 bunch_mat, gamma_ref)
             last_bunch = self._create_new_bunch(bunch, new_bunch_mat,
diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 5a59070..8d5743d 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -146,7 +146,7 @@ class CSRCalculator():
         n_out = element.n_out
         ds_csr = self._csr_step
         ds_traj = self._csr_traj_step
-        if n_out is not None:
+        if n_out:
             ds_out = element.length / n_out
             ds_csr = ds_out / np.ceil(ds_out/ds_csr)
         elif element.length < ds_csr:
-- 
2.43.0


From f6cb670c8c5ef841f737e93f7b1592e8d05641b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:52 +0000
Subject: [PATCH 37/37] fix: focusing blowout in a density given by a constant
 function

---
 wake_t/physics_models/plasma_wakefields/focusing_blowout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
index de59416..2d73a6b 100644
--- a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
@@ -21,7 +21,7 @@ class FocusingBlowoutField(AnalyticalField):
 
     def _pre_gather(self, x, y, xi, t):
         z = t*ct.c + xi
-        n_p = self.density(z)
+        n_p = np.ones_like(z) * self.density(z)
         w_p = np.sqrt(n_p*ct.e**2/(ct.m_e*ct.epsilon_0))
         k = (ct.m_e/(2*ct.e*ct.c))*w_p**2
         self.constants = k
-- 
2.43.0

