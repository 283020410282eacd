From 3745c3e97edcbcb025b7a76a60881fd38c8316f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:01 +0000
Subject: [PATCH 01/43] fix: derive the pulse grid cache key from every grid
 parameter

The key omitted the time window, so W_mks, F_mks, dF_mks and wl_nm kept the
old grid after set_time_window_*/set_frequency_window_*.  The key was also
published before the value it guards, so a concurrent reader could be handed
the previous grid.
---
 src/pynlo/light/PulseBase.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 0b9b249..48b275b 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -128,9 +128,10 @@ class Pulse:
         if (self.cache_hash == self._cache_wl_nm_hash):
            return self._cache_wl_nm
         else:
+           wl_nm = 2*np.pi*self._c_nmps / self.W_THz
+           self._cache_wl_nm = wl_nm
            self._cache_wl_nm_hash = self.cache_hash
-           self._cache_wl_nm = 2*np.pi*self._c_nmps / self.W_THz
-           return self._cache_wl_nm
+           return wl_nm
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_m(self):    
         return 2*np.pi*self._c_mks / self.W_mks
@@ -146,14 +147,15 @@ class Pulse:
     def _get_NPTS(self):
         return self._n
     def _get_hash(self):
-        return str(self._centerfrequency)+str(self.NPTS)    
+        return str((self._centerfrequency, self._n, self._time_window))
     def _get_W_Hz(self):
         if (self._cache_W_Hz_hash == self.cache_hash):
             return self._cache_W_Hz
         else:
+            W_Hz                             =  self._W * 1e12
+            self._cache_W_Hz                 =  W_Hz
             self._cache_W_Hz_hash = self.cache_hash
-            self._cache_W_Hz                 =  self._W * 1e12
-            return self._cache_W_Hz
+            return W_Hz
     def _get_F_Hz(self):
         return self._get_W_Hz() / (2.0*np.pi)            
     def _get_W_THz(self):
-- 
2.43.0


From 5282505102d7df4d5b3a2134428e764f62de2623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:01 +0000
Subject: [PATCH 02/43] fix: return copies of the cached wavelength and
 frequency grids

Every other Pulse accessor returns a fresh array; writing into the array
returned by wl_nm or W_mks silently corrupted the pulse's own grid.
---
 src/pynlo/light/PulseBase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 48b275b..9c44404 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -126,12 +126,12 @@ class Pulse:
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_nm(self):
         if (self.cache_hash == self._cache_wl_nm_hash):
-           return self._cache_wl_nm
+           return self._cache_wl_nm.copy()
         else:
            wl_nm = 2*np.pi*self._c_nmps / self.W_THz
            self._cache_wl_nm = wl_nm
            self._cache_wl_nm_hash = self.cache_hash
-           return wl_nm
+           return wl_nm.copy()
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_m(self):    
         return 2*np.pi*self._c_mks / self.W_mks
@@ -150,12 +150,12 @@ class Pulse:
         return str((self._centerfrequency, self._n, self._time_window))
     def _get_W_Hz(self):
         if (self._cache_W_Hz_hash == self.cache_hash):
-            return self._cache_W_Hz
+            return self._cache_W_Hz.copy()
         else:
             W_Hz                             =  self._W * 1e12
             self._cache_W_Hz                 =  W_Hz
             self._cache_W_Hz_hash = self.cache_hash
-            return W_Hz
+            return W_Hz.copy()
     def _get_F_Hz(self):
         return self._get_W_Hz() / (2.0*np.pi)            
     def _get_W_THz(self):
-- 
2.43.0


From c3c2c7d5faf718d7abbde4dfae0c4d1f87192616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:01 +0000
Subject: [PATCH 03/43] fix: center_wavelength_mks is in metres

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 9c44404..1e899ec 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -138,7 +138,7 @@ class Pulse:
     def _get_center_wavelength_nm(self):
         return self._c_nmps / self._centerfrequency
     def _get_center_wavelength_mks(self):
-        return (self._c_nmps / self._centerfrequency )*1.0e9
+        return (self._c_nmps / self._centerfrequency )*1.0e-9
     def _get_center_frequency_THz(self):
         return self._centerfrequency        
     def _get_center_frequency_mks(self):
-- 
2.43.0


From 2f575cd17cc9f8a8b8eecf97be3acb4782821355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:01 +0000
Subject: [PATCH 04/43] fix: set_AW follows the current grid size

Once a field had been set, set_AW kept the old array, so clone_pulse and
load_pulse_dict into a pulse with another NPTS raised half way through.
---
 src/pynlo/light/PulseBase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 1e899ec..3f4ab06 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -213,9 +213,9 @@ class Pulse:
         """
         if not self._ready:
             raise RuntimeError(self._not_ready_msg)
-        if self._AW is None:
-            self._AW = np.zeros((self._n,), dtype = np.complex128)
-        self._AW[:] = AW_new
+        AW = np.zeros((self._n,), dtype = np.complex128)
+        AW[:] = AW_new
+        self._AW = AW
         
     def set_AT(self, AT_new):
         r""" Set the value of the time-domain electric field.
-- 
2.43.0


From 0de11d3cec415e4fe9fe06b32812489fa32d3cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:01 +0000
Subject: [PATCH 05/43] fix: expand_time_window checks new_pts_loc before
 changing the pulse

---
 src/pynlo/light/PulseBase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 3f4ab06..7a99608 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -753,6 +753,8 @@ class Pulse:
             Where to put the new points. Valid options are "before", "even", 
             "after
         """
+        if new_pts_loc not in ("before", "after", "even"):
+            raise ValueError("new_pts_loc must be one of 'before', 'after', 'even'")
         num_new_pts = self.NPTS*(2**factor_log2 - 1)
         AT_current = self.AT
         
@@ -763,14 +765,12 @@ class Pulse:
             self.set_AT(np.hstack( (np.zeros(num_new_pts,), AT_current) ))
         elif new_pts_loc == "after":
             self.set_AT(np.hstack( (AT_current, np.zeros(num_new_pts,)) ))            
-        elif new_pts_loc == "even":
+        else:
             pts_before = int(np.floor(num_new_pts * 0.5))
             pts_after  = num_new_pts - pts_before
             self.set_AT(np.hstack( (np.zeros(pts_before,), 
                                     AT_current, 
                                     np.zeros(pts_after,)) ))            
-        else:
-            raise ValueError("new_pts_loc must be one of 'before', 'after', 'even'")
     def rotate_spectrum_to_new_center_wl(self, new_center_wl_nm):
         """Change center wavelength of pulse by rotating the electric field in
             the frequency domain. Designed for creating multiple pulses with same
-- 
2.43.0


From 51a393bd71eda7e850d33b2ce52496cd1b0649be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:01 +0000
Subject: [PATCH 06/43] fix: intensity autocorrelation correlates the intensity
 with itself

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 7a99608..d986bb6 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -875,7 +875,7 @@ class Pulse:
             time grid.
             
         """  
-        return np.correlate(abs(self.AT)**2, abs(self.AT), mode='same')  
+        return np.correlate(abs(self.AT)**2, abs(self.AT)**2, mode='same')  
         
     def write_frog(self,
                  fileloc = 'broadened_er_pulse.dat', # default EDFA spectrum
-- 
2.43.0


From 35883dd5e9b860467f1081bff44f8b086749e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:01 +0000
Subject: [PATCH 07/43] fix: SincPulse with power_is_avg builds a sinc

The average-power branch used 1/sinc with a spurious factor of pi.
---
 src/pynlo/light/DerivedPulses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 222ed6d..588d441 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -114,7 +114,7 @@ class SincPulse(Pulse):
             # numpy.sinc is sin(pi*x)/(pi*x), so we divide by pi
             self.set_AT( np.sqrt(power) * np.sinc(self.T_ps/(T0_ps*np.pi)) ) 
         else:
-            self.set_AT( 1 / np.sinc(np.pi * self.T_ps/(T0_ps*np.pi)) )
+            self.set_AT( np.sinc(self.T_ps/(T0_ps*np.pi)) )
             self.set_AT(self.AT * np.sqrt( power / ( frep_MHz*1.0e6 * self.calc_epp()) ))
         
         self.chirp_pulse_W(GDD, TOD)
-- 
2.43.0


From 633dd8922e7ad71acdb5669fc8224d6380f0f1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:01 +0000
Subject: [PATCH 08/43] fix: NoisePulse has random phase, not random amplitude

---
 src/pynlo/light/DerivedPulses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 588d441..bfa2c00 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -183,7 +183,7 @@ class NoisePulse(Pulse):
         self.set_time_window_ps(time_window_ps)        
         
         self.set_AW( 1e-30 * np.ones(self.NPTS) * np.exp(1j * 2 * np.pi *
-                 1j * np.random.rand(self.NPTS)))
+                 np.random.rand(self.NPTS)))
                  
 class CWPulse(Pulse):
     def __init__(self, avg_power, center_wavelength_nm, time_window_ps = 10.0,
-- 
2.43.0


From 8b7b2093a6024f078d1c3e75e83e731a25efe274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:01 +0000
Subject: [PATCH 09/43] fix: write_frog saves a file which FROGPulse reads back

It called methods which do not exist and ignored flip_phase.
---
 src/pynlo/light/PulseBase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index d986bb6..6e54e2e 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -892,9 +892,11 @@ class Pulse:
         is multiplied by frep to calculate pulse energy"""       
         
         self.fileloc   = fileloc             
-        phase_data = np.unwrap(np.angle(self.get_AW()))
-        inten_data = np.abs(self.get_AW())
-        wavel_data = self.internal_wl_to_nm(self.wl_nm)
+        phase_data = np.unwrap(np.angle(self.AW))
+        inten_data = np.abs(self.AW)
+        wavel_data = self.wl_nm
+        if flip_phase:
+            phase_data = -1 * phase_data
         
         # Write pulse data file
         np.savetxt(self.fileloc, np.vstack((wavel_data, inten_data, phase_data)).T) 
-- 
2.43.0


From b34e26de89116eed828a911f5f6201cf048491d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 10/43] fix: every FiberInstance has its own fiberspecs

load_from_file and set_dispersion_function wrote into a class-level dict
shared by all fibers.
---
 src/pynlo/media/fibers/fiber.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 514bb4e..11068a5 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -61,6 +61,7 @@ class FiberInstance:
         self.c_mks = constants.speed_of_light
         self.c = constants.speed_of_light * 1e9/1e12 # c in nm/ps
         self.is_simple_fiber = False
+        self.fiberspecs = {}
         self.fiberloader = JSONFiberLoader.JSONFiberLoader(fiber_db, 
                                                            fiber_db_dir)
         self.dispersion_changes_with_z = False
-- 
2.43.0


From eaba89c9ea441c8ad791685cd310efbcec6d05f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 11/43] fix: get_fiber hands out a copy of the database entry

set_dispersion_function and load_from_file modified the loaded database, so a
fiber loaded again from it was no longer the one in the file.
---
 src/pynlo/media/fibers/JSONFiberLoader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/JSONFiberLoader.py b/src/pynlo/media/fibers/JSONFiberLoader.py
index cdb4515..7d25c9c 100644
--- a/src/pynlo/media/fibers/JSONFiberLoader.py
+++ b/src/pynlo/media/fibers/JSONFiberLoader.py
@@ -21,6 +21,7 @@ from __future__ import absolute_import
 from __future__ import division
 from __future__ import print_function
 
+import copy
 import jsonpickle
 import os
 
@@ -48,6 +49,6 @@ class JSONFiberLoader:
             self.fiber_names.append(each)
     def get_fiber(self, name):
         """ Retrieve fiber parameters for fiber "name" """
-        fiberspecs = self.fibers[name]
+        fiberspecs = copy.deepcopy(self.fibers[name])
         return fiberspecs
         
\ No newline at end of file
-- 
2.43.0


From a4c402e51cb31c3693442440bf830d627ccf1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 12/43] fix: load_dispersion reads GVD data given in ps^n/m

Only ps^n/km was handled; with ps^n/m the fiber silently had no dispersion.
---
 src/pynlo/media/fibers/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 11068a5..2abd8f5 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -121,9 +121,10 @@ class FiberInstance:
         elif self.fiberspecs["dispersion_format"] == "GVD":
             self.dispersion_gvd_units = self.fiberspecs["dispersion_gvd_units"]
             self.center_wavelength = self.fiberspecs["dispersion_gvd_center_wavelength"]
+            self.betas = np.array(self.fiberspecs["dispersion_data"])
             # If in km^-1 units, scale to m^-1
             if self.dispersion_gvd_units == 'ps^n/km':
-                self.betas = np.array(self.fiberspecs["dispersion_data"]) / 1e3
+                self.betas = self.betas / 1e3
             return 1
         else:
             print( "Error: no dispersion found.")
-- 
2.43.0


From 3256b986516a0741997fad27d89006e48193e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 13/43] fix: DTabulationToBetas leaves the caller's table alone

The unit conversion was done in place, so a second call with the same array
gave another answer.
---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index 5499a6c..3459fc1 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -38,7 +38,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     if DDataIsFile:
         DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
     else:
-        DTab = DData[:]
+        DTab = np.array(DData, dtype=float)
             
     # Units of D are ps/nm/km
     # Convert to s/m/m 
-- 
2.43.0


From 15c0fb6b01bc1c97196ab3e9451a85cf2f3020d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 14/43] fix: DTabulationToBetas reads files with current numpy

genfromtxt has no skiprows argument any more.
---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index 3459fc1..0084cde 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -36,7 +36,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     # Expand about lambda0
     makePlots = 0
     if DDataIsFile:
-        DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
+        DTab = np.genfromtxt(DData,delimiter=',',skip_header=1)
     else:
         DTab = np.array(DData, dtype=float)
             
-- 
2.43.0


From 30dbbd3b9647547e8dca92ae6223fd6c1faa537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 15/43] fix: use the exact speed of light in the refractive
 index format

3e8 shifted the supplied index curve by 0.07 percent with respect to the pulse
grid, which is built with the exact value.
---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 2abd8f5..3f66a3a 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -281,7 +281,7 @@ class FiberInstance:
             # self.x is the wavelength in nm
             # self.y is the refractive index (unitless)
             
-            supplied_W_THz = 2 * np.pi * 1e-12 * 3e8 / (self.x*1e-9)
+            supplied_W_THz = 2 * np.pi * 1e-12 * self.c_mks / (self.x*1e-9)
             supplied_betas = self.y * 2 * np.pi / (self.x * 1e-9)
             
             # InterpolatedUnivariateSpline wants increasing x, so flip arrays
-- 
2.43.0


From 75aa770211df69fc8a19a9d7454ad141392597ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 16/43] fix: get_gain uses the pulse's frep_mks

Pulse has no frep_Hz, so a fiber with a gain spectrum could not be used.
---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 3f66a3a..5c8e754 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -326,7 +326,7 @@ class FiberInstance:
                                  bounds_error=False,fill_value=0)
                     gain_spec = f(pulse.W_mks/ (2*np.pi))
 
-                    g = lambda k: np.abs(output_power - pulse.frep_Hz * pulse.dT_mks*
+                    g = lambda k: np.abs(output_power - pulse.frep_mks * pulse.dT_mks*
                                         np.trapz(np.abs(
                                             IFFT_t( pulse.AW *
                                                 np.exp(k*gain_spec*self.length/2.0)
-- 
2.43.0


From 0129988c02b230a4b754d2232e4258263810a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 17/43] fix: np.float is gone from numpy, propagate could not
 run

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 91cc905..091a04e 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -524,7 +524,7 @@ class SSFM:
         
 
         for i in range(n_steps):                        
-            print ("Step:", i, "Distance remaining:", fiber.length * (1 - np.float(i)/n_steps) )
+            print ("Step:", i, "Distance remaining:", fiber.length * (1 - float(i)/n_steps) )
             
             if reload_fiber_each_step:
                 self.load_fiber_parameters(pulse_in, fiber, output_power, z=i*delta_z) 
-- 
2.43.0


From 7f2cb1d4af28591b960ac69dc6a0498f25d74341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 18/43] fix: integrate_over_dz never steps past the end of the
 interval

When rounding left a residual below 2*dz_min the loop ran once more with the
full adaptive step, so the field was propagated up to 2*dz too far.
---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 091a04e..97e07ca 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -366,7 +366,7 @@ class SSFM:
             dist -= 2.0*old_dz
             self.iter += 1
 #            printf("-> [%d] dz = %g dist = %g (old_dz = %g) (z = %g)\n",n,dz,dist,old_dz,self.z)
-            if (2.0*dz > dist) and (dist>2.0*self.dz_min):
+            if (2.0*dz > dist) and (dist>0.0):
                 force_last_dz = True
                 return_dz = dz
                 dz = dist/2.0
-- 
2.43.0


From 7e64e3d2e4a9c93548078453db9faf2d70ff5b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 19/43] fix: a run does not change the Raman fraction of the
 next one

The three-time model overwrote the configured f_R with its own value.
---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 97e07ca..ae15c15 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -284,7 +284,6 @@ class SSFM:
             fb = 0.21
             fc = 0.04
             F_R = 0.245
-            self.f_R = np.copy(F_R)
             ha = tau1 / (tau1**2 + tau2**2) * np.exp(-T / tau2) * np.sin(T / tau1)
             hb = (2*taub - T) / taub**2 * np.exp(-T / taub)
             RT = (fa + fc)*ha + fb*hb
-- 
2.43.0


From 9287a4b030dd2de3c81b8f02e209499ee3281fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 20/43] fix: METHOD_SSFM applies the full dispersion of a step

LinearStep advances by half a step (as RK4IP needs), so the split-step method
saw only half of the dispersion and gain.  Use the symmetric splitting.
---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index ae15c15..591771f 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -377,12 +377,9 @@ class SSFM:
  
     def Advance(self,A,dz,direction):
         if self.method == SSFM.METHOD_SSFM:
-            if direction==1:
-                A[:] = self.LinearStep(A,dz,direction)
-                return np.exp(dz*direction*self.NonlinearOperator(A))*A
-            else:
-                A[:] = np.exp(dz*direction*self.NonlinearOperator(A))*A
-                return self.LinearStep(A,dz,direction)
+            A[:] = self.LinearStep(A,dz,direction)
+            A[:] = np.exp(dz*direction*self.NonlinearOperator(A))*A
+            return self.LinearStep(A,dz,direction)
         elif self.method == SSFM.METHOD_RK4IP:
             return self.RK4IP(A,dz,direction)
 
-- 
2.43.0


From 5ed3037fdb7786cf73c8fa432e69f966394e44cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 21/43] fix: calculate_coherence honours its arguments

random_seed, output_power and reload_fiber_each_step were ignored.
---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 591771f..550fb67 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -576,13 +576,18 @@ class SSFM:
             obtained from :func:`pynlo.interactions.FourWaveMixing.SSFM.propagate`.
         """
         
+        if random_seed is not None:
+            np.random.seed(random_seed)
+
         results = []
         for num in range(0, num_trials):
 
             pulse = pulse_in.create_cloned_pulse()
             pulse.add_noise(noise_type=noise_type)
 
-            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps)
+            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps,
+                                                  output_power=output_power,
+                                                  reload_fiber_each_step=reload_fiber_each_step)
 
             results.append((y, AW, AT, pulse_in, pulse_out))
 
-- 
2.43.0


From bb4e892750aa85d13a58ebf57bb8c9763235107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 22/43] fix: propagate_to_gain_goal uses the pulse's frep_mks

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 550fb67..dfab43f 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -629,15 +629,15 @@ class SSFM:
                                                  1,
                                                  output_power = scalefactor *\
                                                                  power_goal)         
-        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep))
-        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep                                                                 
+        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep_mks))
+        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep_mks                                                                 
         output_scale = scalefactor
         while abs(modeled_avg_power - power_goal) / power_goal > powertol:
             y, AW, AT, pulse_out = self.propagate(pulse_in, fiber,
                                                      1, output_power = 
                                                      power_goal * scalefactor_revised)
             modeled_avg_power_prev = modeled_avg_power
-            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep
+            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep_mks
             slope = (modeled_avg_power - modeled_avg_power_prev) /\
                             (scalefactor_revised - scalefactor)                            
             yint = modeled_avg_power_prev - slope*scalefactor    
-- 
2.43.0


From 90dc23e39600ffd797a0f2480beb16057b95fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 23/43] fix: dense output records the starting point, not the
 second step

integrate() marks the initial call with nstp -1; testing for 1 stored the end of
the second step off the output grid, in place of a grid point.
---
 src/pynlo/util/ode_solve/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index c43ea42..ba8777d 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -110,7 +110,7 @@ class Output:
         if not self.dense:
             e = AttributeError('Dense output is not set in Output!')
             raise e
-        if nstp == 1:
+        if nstp == -1:
             self.save(x,y)
             self.xout += self.dxout
         else:
-- 
2.43.0


From a51498517f75be124bf96f7105baaf075d330719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 24/43] fix: Output(None) records nothing instead of raising

---
 src/pynlo/util/ode_solve/steppers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index ba8777d..3865664 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -94,11 +94,11 @@ class Output:
         self.xsave[self.count]      = xout
         self.count += 1
     def save(self, x, y):
+        if self.kmax <= 0:
+            return
         if self.ysave.dtype != y.dtype:            
             errmsg = 'Integrand returns ',str(y.dtype),' but workspaces are initialized to ',str(self.ysave.dtype),'!'
             raise TypeError(errmsg)
-        if self.kmax <= 0:
-            return
         if self.count == self.kmax:
             self.resize()
         self.ysave[self.count, :]   = y
-- 
2.43.0


From 982cf10a06464b4d95d8a94c4e6d8d15023de2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 25/43] fix: Output.init starts an empty record

A second integration into the same Output appended to cleared arrays.
---
 src/pynlo/util/ode_solve/steppers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index 3865664..d094762 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -63,6 +63,7 @@ class Output:
             """
         self.nvar = neqn
         self.dtype = dtype
+        self.count = 0
         if self.kmax == -1:
             return
         self.ysave = np.zeros((self.kmax, self.nvar), dtype = dtype)
-- 
2.43.0


From 230eeba6b91d00ea1461096c4dd6a51a86e175d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 26/43] fix: every StepperDopr853 has its own step size
 controller

The controller was a class attribute: nested, interleaved or aborted
integrations changed each other's step size history.
---
 src/pynlo/util/ode_solve/dopr853.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 0c68a69..e0a5583 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -32,9 +32,9 @@ class StepperDopr853(StepperBase):
     k2= None;k3= None;k4= None; k5= None;k6= None;k7= None;k8= None;k9= None;k10 = None
     rcont1= None;rcont2= None;rcont3= None;rcont4= None;rcont5= None;rcont6= None
     rcont7= None;rcont8 = None
-    con = Controller()
     def __init__(self, yy, dydxx, xx, atoll, rtoll, dens):
         StepperBase.__init__(self, yy,dydxx, xx, atoll, rtoll, dens)
+        self.con    = Controller()
         self.yerr2  = self.gen_array()
         self.k2     = self.gen_array()
         self.k3     = self.gen_array()
-- 
2.43.0


From b5a0a749fe55b51921f9cc1aca3925e2d8c6e302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 27/43] fix: a zero error estimate is a successful step

With y' = 0 the estimate was 0/0, and integrate() stopped with an assertion.
---
 src/pynlo/util/ode_solve/dopr853.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index e0a5583..f141daa 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -170,7 +170,7 @@ class StepperDopr853(StepperBase):
         err2 = np.sum( pow(np.abs(self.yerr )/sk, 2) )
         err1 = np.sum( pow(np.abs(self.yerr2)/sk, 2) )
         deno = err1 + 0.01 * err2
-        if deno < 0.0:
+        if deno <= 0.0:
             deno = 1.0
         return abs(abs(h) * np.abs(err1) * np.sqrt(1.0 / (deno*self.n)))
         
\ No newline at end of file
-- 
2.43.0


From a12977afca7a8216755b9208c0dfb92305425b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 28/43] fix: cached refractive indices follow the crystal

The cache was shared by all crystals, ignored temperature and angle, and
handed out its own arrays.
---
 src/pynlo/media/crystals/CrystalContainer.py | 9 ++++++---
 src/pynlo/media/crystals/XTAL_PPLN.py        | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index b6739e6..71a587d 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -38,6 +38,7 @@ class Crystal:
                             'damage_threshold_info' : ''}
     
     def __init__(self, params):                
+        self._cached_ns = {}
         if 'length' in params.keys():
             self._length = params['length']
         else:
@@ -61,14 +62,16 @@ class Crystal:
         """ Return vector of indices of refraction for the pulse_instance's 
             frequency grid inside the crystal """
         if self._enable_caching:
-            if pulse_instance.cache_hash + str(axis) in self._cached_ns.keys():
-                return self._cached_ns[pulse_instance.cache_hash + str(axis)]
+            key = (pulse_instance.cache_hash, axis,
+                   getattr(self, 'T', None), getattr(self, 'theta', None))
+            if key in self._cached_ns.keys():
+                return self._cached_ns[key].copy()
             else:
                 if axis is None:
                     ns = self.n(pulse_instance.wl_nm)
                 else:
                     ns = self.n(pulse_instance.wl_nm, axis)
-                self._cached_ns[pulse_instance.cache_hash + str(axis)]= ns
+                self._cached_ns[key] = ns.copy()
         else:
             if axis is None:
                 ns = self.n(pulse_instance.wl_nm)
diff --git a/src/pynlo/media/crystals/XTAL_PPLN.py b/src/pynlo/media/crystals/XTAL_PPLN.py
index 601987a..f0e406f 100644
--- a/src/pynlo/media/crystals/XTAL_PPLN.py
+++ b/src/pynlo/media/crystals/XTAL_PPLN.py
@@ -95,6 +95,7 @@ class PPLN(Crystal):
         self.T = T
         self.mode = 'PP'
         self.sellmeier_type = data_source
+        self._cached_ns = {}
         
         
         self.sellmeier_calculators = {'Deng' :DengSellmeier(T),
-- 
2.43.0


From f46d15ce773ce75f4fbf7add0c2ddbe79d059987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 29/43] fix: every crystal has its own damage threshold

PPLN.load wrote into a dict shared by all crystals.
---
 src/pynlo/media/crystals/CrystalContainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index 71a587d..f8d00e3 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -39,6 +39,7 @@ class Crystal:
     
     def __init__(self, params):                
         self._cached_ns = {}
+        self._crystal_properties = dict(self._crystal_properties)
         if 'length' in params.keys():
             self._length = params['length']
         else:
-- 
2.43.0


From 4521cb2c34f9bb3bc24ae8078a13f0932b9c0891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 30/43] fix: set_pp_chirp uses the crystal's length

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index f8d00e3..b535eeb 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -50,7 +50,7 @@ class Crystal:
             self._enable_caching = False
             
     def set_pp_chirp(self, start, stop):
-        self.pp   = lambda x: start + (stop-start) * x /self.length        
+        self.pp   = lambda x: start + (stop-start) * x /self.length_mks        
     def get_pulse_k(self, pulse_instance, axis = None):
         """ Return vector of angular wavenumbers (m^-1) for the pulse_instance's 
             frequency grid inside the crystal """
-- 
2.43.0


From 40887be2a2186c585da06865eaefb26c6ed2e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 31/43] fix: sign of the crystal dispersion parameter

D = d(1/vg)/dlambda = -(lambda/c) d2n/dlambda2.
---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index b535eeb..a0a57fe 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -104,7 +104,7 @@ class Crystal:
             standard photonic engineering units ps/nm/km"""        
         fn = lambda x: self.n(x, axis)
         d2n_dl2 = misc.derivative(fn, wavelengths_nm, dx = 0.1, n = 2, order = 11)
-        D1      = (wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
+        D1      = -(wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
         D       = D1 * 1.0e12
         return D    
     def calculate_D_fs_um_mm(self, wavelengths_nm, axis = None):
-- 
2.43.0


From 2cb4afe56579a7f259821b4bc4eca28805ce72b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 32/43] fix: process_stepper_output does not modify the solver
 output

A second call on the same output applied the phases twice.
---
 src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index f1bcdaa..6245660 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -466,9 +466,9 @@ class dfg_problem:
         """
         npoints = self.veclength
         
-        pump_out = solver_out.ysave[0:solver_out.count, 0        :   npoints]
-        sgnl_out = solver_out.ysave[0:solver_out.count, npoints  : 2*npoints]
-        idlr_out = solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints]
+        pump_out = solver_out.ysave[0:solver_out.count, 0        :   npoints].copy()
+        sgnl_out = solver_out.ysave[0:solver_out.count, npoints  : 2*npoints].copy()
+        idlr_out = solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints].copy()
         zs       = solver_out.xsave[0:solver_out.count]
         print ('Pulse velocity is ~ '+str(self.approx_pulse_speed*1e-12)+'mm/fs' )
         print('ks: '+str(self.k_p_0)+' '+str(self.k_s_0)+' '+str(self.k_i_0))
-- 
2.43.0


From b60181c7b9f3edf8f88fcf2e021892ba2d5e9c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 33/43] fix: DFGWriter works with current PyTables and saves
 every recorded point

createCArray is gone, nvar/3 is no index in Python 3, Pulse has no frep_Hz, an
existing group could not be replaced, and the point at the exit face was cut.
---
 .../ThreeWaveMixing/multi_run_rw.py           | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 98fa86f..09a3eda 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -102,52 +102,52 @@ class DFGWriter:
             self.root = self.tables_file.create_group('/', param_name)
         except tables.NodeError:
             print ('Parameter "'+param_name+'" already in table; deleting existing data.')
-            self.tables_file.remove_node('/', param_name)
+            self.tables_file.remove_node('/', param_name, recursive = True)
             self.root = self.tables_file.create_group('/', param_name)
             
     def add_run(self,integrand, odesolver, param):
         grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
-        npts           = odesolver.nvar / 3
-        count          = odesolver.out.nsave
+        npts           = odesolver.nvar // 3
+        count          = odesolver.out.count
         
         # Store pump, signal, idler fields        
         atom = tables.Atom.from_dtype(odesolver.out.ysave[0:count, 0 : npts].T.dtype)
         data_shape = odesolver.out.ysave[0:count, 0 : npts].T.shape
-        pump_data = self.tables_file.createCArray(grp, 'pump', atom, data_shape)
+        pump_data = self.tables_file.create_carray(grp, 'pump', atom, data_shape)
         pump_data[:] = odesolver.out.ysave[0:count, 0 : npts].T
-        sgnl_data = self.tables_file.createCArray(grp, 'sgnl', atom, data_shape)      
+        sgnl_data = self.tables_file.create_carray(grp, 'sgnl', atom, data_shape)      
         sgnl_data[:] = odesolver.out.ysave[0:count, npts : 2 * npts].T
-        idlr_data = self.tables_file.createCArray(grp, 'idlr', atom, data_shape)
+        idlr_data = self.tables_file.create_carray(grp, 'idlr', atom, data_shape)
         idlr_data[:] = odesolver.out.ysave[0:count, 2*npts : 3 * npts].T
         
         # By the design of the pulse class, the three things we need are center
         # wavelength, time window, and rep rate (N points is set by the array sizes)
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_twind = self.tables_file.createCArray(grp, 'pump_Twind', atom, data_shape)
+        pump_twind = self.tables_file.create_carray(grp, 'pump_Twind', atom, data_shape)
         pump_twind[:] = integrand.pump.time_window_ps
-        sgnl_twind = self.tables_file.createCArray(grp, 'sgnl_Twind', atom, data_shape)
+        sgnl_twind = self.tables_file.create_carray(grp, 'sgnl_Twind', atom, data_shape)
         sgnl_twind[:] = integrand.sgnl.time_window_ps
-        idlr_twind = self.tables_file.createCArray(grp, 'idlr_Twind', atom, data_shape)
+        idlr_twind = self.tables_file.create_carray(grp, 'idlr_Twind', atom, data_shape)
         idlr_twind[:] = integrand.idlr.time_window_ps
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_wlc = self.tables_file.createCArray(grp, 'pump_center_nm', atom, data_shape)
+        pump_wlc = self.tables_file.create_carray(grp, 'pump_center_nm', atom, data_shape)
         pump_wlc[:] = integrand.pump.center_wavelength_nm
-        sgnl_wlc = self.tables_file.createCArray(grp, 'sgnl_center_nm', atom, data_shape)
+        sgnl_wlc = self.tables_file.create_carray(grp, 'sgnl_center_nm', atom, data_shape)
         sgnl_wlc[:] = integrand.sgnl.center_wavelength_nm
-        idlr_wlc = self.tables_file.createCArray(grp, 'idlr_center_nm', atom, data_shape)
+        idlr_wlc = self.tables_file.create_carray(grp, 'idlr_center_nm', atom, data_shape)
         idlr_wlc[:] = integrand.idlr.center_wavelength_nm
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        fr = self.tables_file.createCArray(grp, 'frep_Hz', atom, data_shape)
-        fr[:] = integrand.pump.frep_Hz
+        fr = self.tables_file.create_carray(grp, 'frep_Hz', atom, data_shape)
+        fr[:] = integrand.pump.frep_mks
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        para = self.tables_file.createCArray(grp, 'param', atom, data_shape)
+        para = self.tables_file.create_carray(grp, 'param', atom, data_shape)
         para[:] = param
         
         self.tables_file.flush()
-- 
2.43.0


From 65cd5a4a225415466257a77ba8a7065774aa4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 34/43] fix: the exceptions module is gone in Python 3

---
 src/pynlo/interactions/ThreeWaveMixing/field_classes.py | 5 ++---
 src/pynlo/media/crystals/XTAL_AgGaS.py                  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
index c303d44..c95fc37 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
@@ -25,7 +25,6 @@ from __future__ import division
 from __future__ import print_function
 
 import numpy as np
-import exceptions
 
 PUMP = 0
 SGNL = 1
@@ -49,10 +48,10 @@ class beam_parameters:
         """ calculate overlap integral between fields A and B. A & B must be
         integers between 0-2 (0 = pump, 1 = signal, 3 = idler.)"""
         if (type(A) is not int) or (type(B) is not int):
-            e = exceptions.TypeError('A & B must both be integers.')
+            e = TypeError('A & B must both be integers.')
             raise e
         if A < 0 or A>3 or B<0 or B>3:
-            e = exceptions.ValueError('A & B must be in range [0,3].')
+            e = ValueError('A & B must be in range [0,3].')
             raise e
         return (self.waists[A]+self.waists[B]) / 2.0
         
diff --git a/src/pynlo/media/crystals/XTAL_AgGaS.py b/src/pynlo/media/crystals/XTAL_AgGaS.py
index 665c97a..500fa74 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaS.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaS.py
@@ -25,7 +25,6 @@ from __future__ import print_function
 
 import numpy as np
 from pynlo.media.crystals.CrystalContainer import Crystal
-import exceptions 
 
 class AgGaSe2(Crystal):
     def __init__(self, theta = 0.0, **params):
@@ -96,7 +95,7 @@ class AgGaSe2(Crystal):
             return no
         elif axis == 'e':
             return ne
-        raise exceptions.ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
+        raise ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
     def phasematch(self, pump_wl_nm, sgnl_wl_nm, idlr_wl_nm, return_wavelength = False):
         """ Phase match mixing between pump (aligned to a mix of ne and no) and
             signal and idler (aligned to ordinary axis.)"""
@@ -133,7 +132,7 @@ class AgGaSe2(Crystal):
         if x < 0:
             x = ( -b - np.sqrt(b**2-4*a*c) )/ (2.0  * a)
         if np.isnan(np.arccos(x)) :
-            raise exceptions.AttributeError('No phase matching condition.')
+            raise AttributeError('No phase matching condition.')
         theta = np.arccos(x)
         print('Angle set to ',360*theta / (2.0*np.pi) )
         if RET_WL and return_wavelength:
-- 
2.43.0


From d54e83e82db7e1b8e0a1fd3a1822774795872fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 35/43] fix: reject steps that overflow instead of accepting a
 NaN error estimate

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index dfab43f..fb74fda 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -329,7 +329,10 @@ class SSFM:
                 print ("iteration:",self.iter,"dz:",dz,"distance:", dist,\
                       "local error", delta )
 
-            if delta > 2.0*self.local_error:
+            # a step so large that it overflows has no usable error estimate
+            overflow = not np.isfinite(delta) and np.isfinite(self.A).all()
+
+            if delta > 2.0*self.local_error or overflow:
                 # Discard the solution, decrease step
                 new_dz = dz/2.0
                 if new_dz >= self.dz_min:
-- 
2.43.0


From 1990ad4f39cd04a2ad6be09150631aceea6290cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:48 +0000
Subject: [PATCH 36/43] fix: a generated fiber can be given a tabulated
 dispersion function

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 5c8e754..2757fb7 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -54,7 +54,7 @@ class FiberInstance:
     length      = None
     fibertype   = None
     fiberspecs  = {}
-    poly_order  = None
+    poly_order  = 2    # fit order unless a load call sets one
     gamma       = None
     def __init__(self, fiber_db = 'general_fibers',
                        fiber_db_dir = None):
-- 
2.43.0


From a3f19e98bfaf53af33fcdc9d2a64909938d36d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 37/43] fix: shrink trial steps whose error estimate is not a
 number

---
 src/pynlo/util/ode_solve/dopr853_controller.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853_controller.py b/src/pynlo/util/ode_solve/dopr853_controller.py
index 77d648f..55e4a28 100644
--- a/src/pynlo/util/ode_solve/dopr853_controller.py
+++ b/src/pynlo/util/ode_solve/dopr853_controller.py
@@ -62,7 +62,11 @@ class Controller:
            return (True, h)
        else:           
 
-           scale = max(safe*np.power(err, -alpha), minscale)
+           if np.isnan(err):
+               # the trial step left the domain of the integrand
+               scale = minscale
+           else:
+               scale = max(safe*np.power(err, -alpha), minscale)
            h *= scale
            if DEBUG:
                print ('Reject, ',h)
-- 
2.43.0


From d0d8857b688a19d67000b3e1f9472394edbf4bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:25 +0000
Subject: [PATCH 38/43] fix: read the repetition rate of the requested run, not
 of the first

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 09a3eda..ca2044b 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -53,6 +53,7 @@ class DFGReader:
             z_num = -1
             
         run = self.root_name+'/run'+str(run_num)
+        frep_MHz = self.tables_file.get_node(run+'/frep_Hz')[0] * 1.0e-6
         
         # Read in and generate pump pulse
         pump_field  = self.tables_file.get_node(run+'/pump')[:,z_num]
@@ -63,7 +64,7 @@ class DFGReader:
         p.set_center_wavelength_nm(pump_center)
         p.set_time_window_ps(pump_Twind)
         p.set_AW(pump_field)
-        p.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        p.set_frep_MHz(frep_MHz)
         
         # Read in and generate signal pulse
         sgnl_field  = self.tables_file.get_node(run+'/sgnl')[:,z_num]
@@ -74,7 +75,7 @@ class DFGReader:
         s.set_center_wavelength_nm(sgnl_center)
         s.set_time_window_ps(sgnl_Twind)
         s.set_AW(sgnl_field)
-        s.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        s.set_frep_MHz(frep_MHz)
 
         # Read in and generate idler pulse
         idlr_field  = self.tables_file.get_node(run+'/idlr')[:,z_num]
@@ -85,7 +86,7 @@ class DFGReader:
         i.set_center_wavelength_nm(idlr_center)
         i.set_time_window_ps(idlr_Twind)
         i.set_AW(idlr_field)
-        i.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        i.set_frep_MHz(frep_MHz)
         
         return (p, s, i)
         
-- 
2.43.0


From 3839759792f8392545c400b44021c07db0bfd2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:03 +0000
Subject: [PATCH 39/43] fix: higher order compressor dispersion from steps that
 the arithmetic resolves

---
 src/pynlo/devices/grating_compressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 8e85320..0f2fffe 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -134,8 +134,8 @@ class TreacyCompressor:
         return misc.derivative(fn, 
                                       w_of_l(wavelength_nm),
                                       n     = dispersion_order - 2,
-                                      dx    = 2.0*np.pi*100.0e6, # Use dx = 100 MHz
-                                      order = 101 ) # Why not use 101's order?
+                                      dx    = 2.0*np.pi*100.0e9, # Use dx = 100 GHz
+                                      order = 21 )
     
     
     def calc_compressor_dnphi_domega_n(self, wavelength_nm, grating_separation_meters, dispersion_order):
-- 
2.43.0


From fe0f3220346f2c99342b3b12792c25d427abd426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:22 +0000
Subject: [PATCH 40/43] fix: propagation constants do not depend on other
 threads using the fiber

---
 src/pynlo/media/fibers/fiber.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 2757fb7..321012b 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -251,19 +251,25 @@ class FiberInstance:
         # if the dispersion changes with z, we need to reload the dispersion:
         if self.dispersion_changes_with_z:
             if self.fiberspecs["dispersion_format"] == "D" or self.fiberspecs["dispersion_format"] == "n":
-                self.x, self.y = self.dispersion_function(z)
+                self.x, self.y = x, y = self.dispersion_function(z)
             if self.fiberspecs["dispersion_format"] == "GVD":
-                self.betas     = np.array(self.dispersion_function(z))
+                self.betas     = betas = np.array(self.dispersion_function(z))
+        else:
+            if self.fiberspecs["dispersion_format"] == "D" or self.fiberspecs["dispersion_format"] == "n":
+                x, y  = self.x, self.y
+            if self.fiberspecs["dispersion_format"] == "GVD":
+                betas = self.betas
             
         
         B = np.zeros((pulse.NPTS,))
         if self.fiberspecs["dispersion_format"] == "D":
-            self.betas = DTabulationToBetas(pulse.center_wavelength_nm,
-                                            np.transpose(np.vstack((self.x,self.y))),
-                                            self.poly_order,
-                                            DDataIsFile = False)
-            for i in range(len(self.betas)):
-                B = B + self.betas[i]/factorial(i+2)*pulse.V_THz**(i+2)
+            betas = DTabulationToBetas(pulse.center_wavelength_nm,
+                                       np.transpose(np.vstack((x,y))),
+                                       self.poly_order,
+                                       DDataIsFile = False)
+            self.betas = betas
+            for i in range(len(betas)):
+                B = B + betas[i]/factorial(i+2)*pulse.V_THz**(i+2)
             return B
             
         elif self.fiberspecs["dispersion_format"] == "GVD":
@@ -271,9 +277,7 @@ class FiberInstance:
             # w0 is the center of the Taylor expansion, and is defined by the
             # fiber. the w's are from the optical spectrum
             fiber_omega0 =  2*np.pi*self.c / self.center_wavelength # THz
-            betas = self.betas
             for i in range(len(betas)):
-                betas[i] = betas[i]
                 B = B + betas[i] / factorial(i + 2) * (pulse.W_THz-fiber_omega0)**(i + 2)
         
         elif self.fiberspecs["dispersion_format"] == "n":
@@ -281,8 +285,8 @@ class FiberInstance:
             # self.x is the wavelength in nm
             # self.y is the refractive index (unitless)
             
-            supplied_W_THz = 2 * np.pi * 1e-12 * self.c_mks / (self.x*1e-9)
-            supplied_betas = self.y * 2 * np.pi / (self.x * 1e-9)
+            supplied_W_THz = 2 * np.pi * 1e-12 * self.c_mks / (x*1e-9)
+            supplied_betas = y * 2 * np.pi / (x * 1e-9)
             
             # InterpolatedUnivariateSpline wants increasing x, so flip arrays
             interpolator = scipy.interpolate.InterpolatedUnivariateSpline(supplied_W_THz[::-1], supplied_betas[::-1]) 
-- 
2.43.0


From 984c6049e0f58d4a9d2af1a13cc5b86a25aeec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:27 +0000
Subject: [PATCH 41/43] fix: a copy of a mixing problem transforms in its own
 arrays

Without pyFFTW the transforms of a copied fftcomputer (and so of a deep
copied dfg_problem) read and wrote the arrays of the original; with pyFFTW
copying raised a TypeError.
---
 src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index 6245660..801032d 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -598,6 +598,9 @@ class fftcomputer:
                 return self.backout        
             self.fft =  pyfft_style_fft
             self.ifft = pyfft_style_ifft
+    def __reduce__(self):
+        # there is only work space in here: a copy gets its own
+        return (self.__class__, (self.gridsize,))
     def corr(self, data1, data2):
         n = self.gridsize
         self.corrin[:] = 0
-- 
2.43.0


From 9d97b55572c0164697568ba36fa316d46633b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:05 +0000
Subject: [PATCH 42/43] fix: the gain of an amplifier does not depend on the
 units of its gain table

---
 src/pynlo/media/fibers/fiber.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 321012b..b72f3af 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -329,6 +329,10 @@ class FiberInstance:
                     f = scipy.interpolate.interp1d(self.c_mks/x[::-1],y[::-1],kind ='cubic',
                                  bounds_error=False,fill_value=0)
                     gain_spec = f(pulse.W_mks/ (2*np.pi))
+                    # only the shape of the table counts, the output power sets its scale
+                    peak = np.max(np.abs(gain_spec)) * self.length
+                    if peak > 0:
+                        gain_spec = gain_spec / peak
 
                     g = lambda k: np.abs(output_power - pulse.frep_mks * pulse.dT_mks*
                                         np.trapz(np.abs(
-- 
2.43.0


From dea52bc765fbe41f481d54bf1f16da80409cf132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:14 +0000
Subject: [PATCH 43/43] fix: higher derivatives of the compressor delay are in
 fs^(n+1)

---
 src/pynlo/devices/grating_compressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 0f2fffe..6fd3f60 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -150,8 +150,8 @@ class TreacyCompressor:
         dphidw = fn(ws)        
         y = signal.savgol_filter(dphidw, window_length = 11,
                              polyorder = 7, deriv = dispersion_order)
-        dw = (ws[1] - ws[0])*10**(-15*(1+dispersion_order))
-        return y[50]/(dw**dispersion_order)
+        dw = ws[1] - ws[0]
+        return y[50]/(dw**dispersion_order) * 10.0**(15*(1+dispersion_order))
     
     
     def apply_phase_to_pulse(self, grating_separation_meters, pulse):
-- 
2.43.0

