From 8e77cb003cf9913fcb11660ad928a4314f006eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 01/53] fix: grid cache key includes the time window

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 0b9b249..3b368e3 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -146,7 +146,7 @@ class Pulse:
     def _get_NPTS(self):
         return self._n
     def _get_hash(self):
-        return str(self._centerfrequency)+str(self.NPTS)    
+        return str((self._centerfrequency, self.NPTS, self._time_window))
     def _get_W_Hz(self):
         if (self._cache_W_Hz_hash == self.cache_hash):
             return self._cache_W_Hz
-- 
2.43.0


From 98518949f3acca67fc6fb9b5ed653355846b8146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 02/53] fix: center_wavelength_mks is in metres

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 3b368e3..789fad7 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -137,7 +137,7 @@ class Pulse:
     def _get_center_wavelength_nm(self):
         return self._c_nmps / self._centerfrequency
     def _get_center_wavelength_mks(self):
-        return (self._c_nmps / self._centerfrequency )*1.0e9
+        return (self._c_nmps / self._centerfrequency )*1.0e-9
     def _get_center_frequency_THz(self):
         return self._centerfrequency        
     def _get_center_frequency_mks(self):
-- 
2.43.0


From b1214cc370caa06440bc1c96280c2339142db64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 03/53] fix: reading a cached grid returns a copy, not the
 cache itself

---
 src/pynlo/light/PulseBase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 789fad7..c47c45c 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -126,11 +126,11 @@ class Pulse:
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_nm(self):
         if (self.cache_hash == self._cache_wl_nm_hash):
-           return self._cache_wl_nm
+           return self._cache_wl_nm.copy()
         else:
            self._cache_wl_nm_hash = self.cache_hash
            self._cache_wl_nm = 2*np.pi*self._c_nmps / self.W_THz
-           return self._cache_wl_nm
+           return self._cache_wl_nm.copy()
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_m(self):    
         return 2*np.pi*self._c_mks / self.W_mks
@@ -149,11 +149,11 @@ class Pulse:
         return str((self._centerfrequency, self.NPTS, self._time_window))
     def _get_W_Hz(self):
         if (self._cache_W_Hz_hash == self.cache_hash):
-            return self._cache_W_Hz
+            return self._cache_W_Hz.copy()
         else:
             self._cache_W_Hz_hash = self.cache_hash
             self._cache_W_Hz                 =  self._W * 1e12
-            return self._cache_W_Hz
+            return self._cache_W_Hz.copy()
     def _get_F_Hz(self):
         return self._get_W_Hz() / (2.0*np.pi)            
     def _get_W_THz(self):
-- 
2.43.0


From 6f725988824dcddedafbcc78a80d8b150fc456b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 04/53] fix: intensity autocorrelation correlates the intensity
 with itself

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index c47c45c..bf44990 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -873,7 +873,7 @@ class Pulse:
             time grid.
             
         """  
-        return np.correlate(abs(self.AT)**2, abs(self.AT), mode='same')  
+        return np.correlate(abs(self.AT)**2, abs(self.AT)**2, mode='same')  
         
     def write_frog(self,
                  fileloc = 'broadened_er_pulse.dat', # default EDFA spectrum
-- 
2.43.0


From 7dde136fde0f33b50992081e762194aa82da1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 05/53] fix: write_frog uses the existing field and wavelength
 properties and honours flip_phase

---
 src/pynlo/light/PulseBase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index bf44990..fa766a6 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -890,9 +890,11 @@ class Pulse:
         is multiplied by frep to calculate pulse energy"""       
         
         self.fileloc   = fileloc             
-        phase_data = np.unwrap(np.angle(self.get_AW()))
-        inten_data = np.abs(self.get_AW())
-        wavel_data = self.internal_wl_to_nm(self.wl_nm)
+        phase_data = np.unwrap(np.angle(self.AW))
+        inten_data = np.abs(self.AW)
+        wavel_data = self.wl_nm
+        if flip_phase:
+            phase_data = -1 * phase_data
         
         # Write pulse data file
         np.savetxt(self.fileloc, np.vstack((wavel_data, inten_data, phase_data)).T) 
-- 
2.43.0


From 557d0e6930ae07a7969ccfb5e47b841e66095a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 06/53] fix: copying or loading a pulse of another size
 replaces the field array

---
 src/pynlo/light/PulseBase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index fa766a6..859c437 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -810,7 +810,9 @@ class Pulse:
         self.set_time_window_ps(p.time_window_ps)
         self.set_center_wavelength_nm(p.center_wavelength_nm)
         self._frep_MHz = p.frep_MHz
-        self.set_AT(p.AT)
+        AT_new = p.AT
+        self._AW = None # Force generation of new array
+        self.set_AT(AT_new)
     def get_pulse_dict(self):
         d = {"NPTS" : self.NPTS,
              "time_window_ps" : self.time_window_ps,
@@ -824,6 +826,7 @@ class Pulse:
         self.set_time_window_ps(d["time_window_ps"])
         self.set_center_wavelength_nm(d["center_wavelength_nm"])
         self._frep_MHz = d["frep_MHz"]
+        self._AW = None # Force generation of new array
         self.set_AT(np.array(d["AT_re"]) + 1j*np.array(d["AT_im"]) )
     def create_cloned_pulse(self):
         '''Create and return new pulse instance identical to this instance.'''
-- 
2.43.0


From a3691f23a22d734c77065e94441c3f9025e3d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 07/53] fix: expand_time_window rejects a bad new_pts_loc
 before changing the pulse

---
 src/pynlo/light/PulseBase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 859c437..ef12cc9 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -751,6 +751,8 @@ class Pulse:
             Where to put the new points. Valid options are "before", "even", 
             "after
         """
+        if new_pts_loc not in ("before", "after", "even"):
+            raise ValueError("new_pts_loc must be one of 'before', 'after', 'even'")
         num_new_pts = self.NPTS*(2**factor_log2 - 1)
         AT_current = self.AT
         
@@ -767,8 +769,6 @@ class Pulse:
             self.set_AT(np.hstack( (np.zeros(pts_before,), 
                                     AT_current, 
                                     np.zeros(pts_after,)) ))            
-        else:
-            raise ValueError("new_pts_loc must be one of 'before', 'after', 'even'")
     def rotate_spectrum_to_new_center_wl(self, new_center_wl_nm):
         """Change center wavelength of pulse by rotating the electric field in
             the frequency domain. Designed for creating multiple pulses with same
-- 
2.43.0


From f05ec358c3075c9b55b2ee2b82313fbab99ffb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 08/53] fix: SincPulse with average power has the sinc profile

---
 src/pynlo/light/DerivedPulses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 222ed6d..588d441 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -114,7 +114,7 @@ class SincPulse(Pulse):
             # numpy.sinc is sin(pi*x)/(pi*x), so we divide by pi
             self.set_AT( np.sqrt(power) * np.sinc(self.T_ps/(T0_ps*np.pi)) ) 
         else:
-            self.set_AT( 1 / np.sinc(np.pi * self.T_ps/(T0_ps*np.pi)) )
+            self.set_AT( np.sinc(self.T_ps/(T0_ps*np.pi)) )
             self.set_AT(self.AT * np.sqrt( power / ( frep_MHz*1.0e6 * self.calc_epp()) ))
         
         self.chirp_pulse_W(GDD, TOD)
-- 
2.43.0


From cd355bdae319c9bcd1c2282ec637a9010cf043c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 09/53] fix: NoisePulse has a random phase instead of a random
 magnitude

---
 src/pynlo/light/DerivedPulses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 588d441..bfa2c00 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -183,7 +183,7 @@ class NoisePulse(Pulse):
         self.set_time_window_ps(time_window_ps)        
         
         self.set_AW( 1e-30 * np.ones(self.NPTS) * np.exp(1j * 2 * np.pi *
-                 1j * np.random.rand(self.NPTS)))
+                 np.random.rand(self.NPTS)))
                  
 class CWPulse(Pulse):
     def __init__(self, avg_power, center_wavelength_nm, time_window_ps = 10.0,
-- 
2.43.0


From 067eb7a352c01ee47b4eec2c145e84c6a370c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 10/53] fix: crystal index cache is per crystal, keyed on its
 parameters, and returns copies

---
 src/pynlo/media/crystals/CrystalContainer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index b6739e6..4be8ebd 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -46,6 +46,7 @@ class Crystal:
             self._enable_caching = params['enable_caching']
         else:
             self._enable_caching = False
+        self._cached_ns = {}
             
     def set_pp_chirp(self, start, stop):
         self.pp   = lambda x: start + (stop-start) * x /self.length        
@@ -61,14 +62,17 @@ class Crystal:
         """ Return vector of indices of refraction for the pulse_instance's 
             frequency grid inside the crystal """
         if self._enable_caching:
-            if pulse_instance.cache_hash + str(axis) in self._cached_ns.keys():
-                return self._cached_ns[pulse_instance.cache_hash + str(axis)]
+            key = (pulse_instance.cache_hash, str(axis),
+                   getattr(self, 'T', None), getattr(self, 'theta', None),
+                   getattr(self, 'sellmeier_type', None))
+            if key in self._cached_ns.keys():
+                return np.copy(self._cached_ns[key])
             else:
                 if axis is None:
                     ns = self.n(pulse_instance.wl_nm)
                 else:
                     ns = self.n(pulse_instance.wl_nm, axis)
-                self._cached_ns[pulse_instance.cache_hash + str(axis)]= ns
+                self._cached_ns[key] = np.copy(ns)
         else:
             if axis is None:
                 ns = self.n(pulse_instance.wl_nm)
-- 
2.43.0


From c1eacca7dfe4d969f8160f0cbf131df53d387515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 11/53] fix: crystal properties are per crystal

---
 src/pynlo/media/crystals/CrystalContainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index 4be8ebd..a9de1d8 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -38,6 +38,7 @@ class Crystal:
                             'damage_threshold_info' : ''}
     
     def __init__(self, params):                
+        self._crystal_properties = dict(self._crystal_properties)
         if 'length' in params.keys():
             self._length = params['length']
         else:
-- 
2.43.0


From 5d6fc15d28782b408b361272b689adeaf044cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 12/53] fix: set_pp_chirp uses the crystal length in metres

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index a9de1d8..b99a4b1 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -50,7 +50,7 @@ class Crystal:
         self._cached_ns = {}
             
     def set_pp_chirp(self, start, stop):
-        self.pp   = lambda x: start + (stop-start) * x /self.length        
+        self.pp   = lambda x: start + (stop-start) * x /self.length_mks
     def get_pulse_k(self, pulse_instance, axis = None):
         """ Return vector of angular wavenumbers (m^-1) for the pulse_instance's 
             frequency grid inside the crystal """
-- 
2.43.0


From 40c9737a63db36d1480ce74a27adad62119ebffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 13/53] fix: zero error estimate does not make the step size
 NaN

---
 src/pynlo/util/ode_solve/dopr853.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 0c68a69..0e5304d 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -170,7 +170,7 @@ class StepperDopr853(StepperBase):
         err2 = np.sum( pow(np.abs(self.yerr )/sk, 2) )
         err1 = np.sum( pow(np.abs(self.yerr2)/sk, 2) )
         deno = err1 + 0.01 * err2
-        if deno < 0.0:
+        if deno <= 0.0:
             deno = 1.0
         return abs(abs(h) * np.abs(err1) * np.sqrt(1.0 / (deno*self.n)))
         
\ No newline at end of file
-- 
2.43.0


From 018b453cbf9176e9c108ae7bb3b627009e1a9b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 14/53] fix: each stepper has its own step size controller

---
 src/pynlo/util/ode_solve/dopr853.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 0e5304d..7625b30 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -32,9 +32,10 @@ class StepperDopr853(StepperBase):
     k2= None;k3= None;k4= None; k5= None;k6= None;k7= None;k8= None;k9= None;k10 = None
     rcont1= None;rcont2= None;rcont3= None;rcont4= None;rcont5= None;rcont6= None
     rcont7= None;rcont8 = None
-    con = Controller()
+    con = None
     def __init__(self, yy, dydxx, xx, atoll, rtoll, dens):
         StepperBase.__init__(self, yy,dydxx, xx, atoll, rtoll, dens)
+        self.con    = Controller()
         self.yerr2  = self.gen_array()
         self.k2     = self.gen_array()
         self.k3     = self.gen_array()
-- 
2.43.0


From 72eefff65e11f585ac49a9883d0fbe5f82fbd903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 15/53] fix: dense output starts with the initial point and
 never saves off the grid

---
 src/pynlo/util/ode_solve/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index c43ea42..ba8777d 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -110,7 +110,7 @@ class Output:
         if not self.dense:
             e = AttributeError('Dense output is not set in Output!')
             raise e
-        if nstp == 1:
+        if nstp == -1:
             self.save(x,y)
             self.xout += self.dxout
         else:
-- 
2.43.0


From 119e84c43e48c73c81ad7ceee9cf0732b1d4a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 16/53] fix: dense output grid is saved once each, without
 accumulating rounding

---
 src/pynlo/util/ode_solve/steppers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index ba8777d..5e61015 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -112,11 +112,11 @@ class Output:
             raise e
         if nstp == -1:
             self.save(x,y)
-            self.xout += self.dxout
+            self.xout = self.x1 + self.count*self.dxout
         else:
             while (x-self.xout)*(self.x2-self.x1) > 0.0:
                 self.save_dense(s, self.xout, h)
-                self.xout += self.dxout
+                self.xout = self.x1 + self.count*self.dxout
         
         
 
@@ -227,7 +227,7 @@ class ODEint:
                 self.ystart[:] = self.s.y
                 if self.out.kmax > 0 and\
                         abs(self.out.xsave[self.out.count-1]-self.x2) >\
-                        100.0*abs(self.x2)*self.EPS:
+                        100.0*max(abs(self.x1), abs(self.x2))*self.EPS:
                     self.out.save(self.s.x, self.s.y)
                 return
             if abs(self.s.hnext) <= self.hmin:
-- 
2.43.0


From 6485b26399f34c470e5557bf7ba155b510975b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 17/53] fix: Output without saves ignores save requests

---
 src/pynlo/util/ode_solve/steppers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index 5e61015..4c8190c 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -94,11 +94,11 @@ class Output:
         self.xsave[self.count]      = xout
         self.count += 1
     def save(self, x, y):
+        if self.kmax <= 0:
+            return
         if self.ysave.dtype != y.dtype:            
             errmsg = 'Integrand returns ',str(y.dtype),' but workspaces are initialized to ',str(self.ysave.dtype),'!'
             raise TypeError(errmsg)
-        if self.kmax <= 0:
-            return
         if self.count == self.kmax:
             self.resize()
         self.ysave[self.count, :]   = y
-- 
2.43.0


From 330a63696b26598d5a70c6cedcfc19d42df5e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 18/53] fix: propagate does not use the removed np.float

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 91cc905..091a04e 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -524,7 +524,7 @@ class SSFM:
         
 
         for i in range(n_steps):                        
-            print ("Step:", i, "Distance remaining:", fiber.length * (1 - np.float(i)/n_steps) )
+            print ("Step:", i, "Distance remaining:", fiber.length * (1 - float(i)/n_steps) )
             
             if reload_fiber_each_step:
                 self.load_fiber_parameters(pulse_in, fiber, output_power, z=i*delta_z) 
-- 
2.43.0


From fcf59f832cbafc41cb6db631cffb0868dbbbabf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 19/53] fix: propagation does not overshoot when a rounding
 residue of the distance is left

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 091a04e..97e07ca 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -366,7 +366,7 @@ class SSFM:
             dist -= 2.0*old_dz
             self.iter += 1
 #            printf("-> [%d] dz = %g dist = %g (old_dz = %g) (z = %g)\n",n,dz,dist,old_dz,self.z)
-            if (2.0*dz > dist) and (dist>2.0*self.dz_min):
+            if (2.0*dz > dist) and (dist>0.0):
                 force_last_dz = True
                 return_dz = dz
                 dz = dist/2.0
-- 
2.43.0


From 910c581197670fea27a437132c3cb73cbfdafaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 20/53] fix: calculate_coherence honours random_seed,
 output_power and reload_fiber_each_step

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 97e07ca..3813306 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -580,13 +580,18 @@ class SSFM:
             obtained from :func:`pynlo.interactions.FourWaveMixing.SSFM.propagate`.
         """
         
+        if random_seed is not None:
+            np.random.seed(random_seed)
+
         results = []
         for num in range(0, num_trials):
 
             pulse = pulse_in.create_cloned_pulse()
             pulse.add_noise(noise_type=noise_type)
 
-            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps)
+            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps,
+                                                   output_power=output_power,
+                                                   reload_fiber_each_step=reload_fiber_each_step)
 
             results.append((y, AW, AT, pulse_in, pulse_out))
 
-- 
2.43.0


From 3d8556621e9bbe25bf7b9ba278742d8e7913d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 21/53] fix: gain calculations use the existing repetition rate
 property

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 6 +++---
 src/pynlo/media/fibers/fiber.py               | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 3813306..7048f52 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -633,15 +633,15 @@ class SSFM:
                                                  1,
                                                  output_power = scalefactor *\
                                                                  power_goal)         
-        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep))
-        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep                                                                 
+        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep_mks))
+        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep_mks                                                                 
         output_scale = scalefactor
         while abs(modeled_avg_power - power_goal) / power_goal > powertol:
             y, AW, AT, pulse_out = self.propagate(pulse_in, fiber,
                                                      1, output_power = 
                                                      power_goal * scalefactor_revised)
             modeled_avg_power_prev = modeled_avg_power
-            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep
+            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep_mks
             slope = (modeled_avg_power - modeled_avg_power_prev) /\
                             (scalefactor_revised - scalefactor)                            
             yint = modeled_avg_power_prev - slope*scalefactor    
diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 514bb4e..c82799d 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -324,7 +324,7 @@ class FiberInstance:
                                  bounds_error=False,fill_value=0)
                     gain_spec = f(pulse.W_mks/ (2*np.pi))
 
-                    g = lambda k: np.abs(output_power - pulse.frep_Hz * pulse.dT_mks*
+                    g = lambda k: np.abs(output_power - pulse.frep_mks * pulse.dT_mks*
                                         np.trapz(np.abs(
                                             IFFT_t( pulse.AW *
                                                 np.exp(k*gain_spec*self.length/2.0)
-- 
2.43.0


From 789710edbeb340ff4c8555b56767f0158b1f60ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 22/53] fix: fibre descriptions are not shared between fibres

---
 src/pynlo/media/fibers/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index c82799d..90531e5 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -61,6 +61,7 @@ class FiberInstance:
         self.c_mks = constants.speed_of_light
         self.c = constants.speed_of_light * 1e9/1e12 # c in nm/ps
         self.is_simple_fiber = False
+        self.fiberspecs = {}
         self.fiberloader = JSONFiberLoader.JSONFiberLoader(fiber_db, 
                                                            fiber_db_dir)
         self.dispersion_changes_with_z = False
@@ -70,7 +71,7 @@ class FiberInstance:
     def load_from_db(self, length, fibertype, poly_order = 2):
         """This loads a fiber from the database. """
         self.fibertype = fibertype
-        self.fiberspecs = self.fiberloader.get_fiber(fibertype)
+        self.fiberspecs = dict(self.fiberloader.get_fiber(fibertype))
         self.length = length
         self.betas = np.array([0])
         self.gamma = self.fiberspecs["gamma"]
-- 
2.43.0


From cb82d8d428a258a8a4ccdcbe1888f432d707e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 23/53] fix: refractive index tables use the exact speed of
 light

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 90531e5..d8764a2 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -280,7 +280,7 @@ class FiberInstance:
             # self.x is the wavelength in nm
             # self.y is the refractive index (unitless)
             
-            supplied_W_THz = 2 * np.pi * 1e-12 * 3e8 / (self.x*1e-9)
+            supplied_W_THz = 2 * np.pi * 1e-12 * self.c_mks / (self.x*1e-9)
             supplied_betas = self.y * 2 * np.pi / (self.x * 1e-9)
             
             # InterpolatedUnivariateSpline wants increasing x, so flip arrays
-- 
2.43.0


From b3da6385b351e022c1e858e50a4e98f05ba48c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 24/53] fix: database fibres with coefficients per metre are
 loaded

---
 src/pynlo/media/fibers/fiber.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index d8764a2..994cb77 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -124,6 +124,8 @@ class FiberInstance:
             # If in km^-1 units, scale to m^-1
             if self.dispersion_gvd_units == 'ps^n/km':
                 self.betas = np.array(self.fiberspecs["dispersion_data"]) / 1e3
+            else:
+                self.betas = np.array(self.fiberspecs["dispersion_data"])
             return 1
         else:
             print( "Error: no dispersion found.")
-- 
2.43.0


From 171f0cef8ceab3ab1d7af4dd96b515a9108c8f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 25/53] fix: DTabulationToBetas leaves the caller table
 unchanged

---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index 5499a6c..3459fc1 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -38,7 +38,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     if DDataIsFile:
         DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
     else:
-        DTab = DData[:]
+        DTab = np.array(DData, dtype=float)
             
     # Units of D are ps/nm/km
     # Convert to s/m/m 
-- 
2.43.0


From 9000284f8ff7142ba8979030904b5655f506b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 26/53] fix: post-processing a solution does not modify the
 saved solver output

---
 src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index f1bcdaa..6245660 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -466,9 +466,9 @@ class dfg_problem:
         """
         npoints = self.veclength
         
-        pump_out = solver_out.ysave[0:solver_out.count, 0        :   npoints]
-        sgnl_out = solver_out.ysave[0:solver_out.count, npoints  : 2*npoints]
-        idlr_out = solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints]
+        pump_out = solver_out.ysave[0:solver_out.count, 0        :   npoints].copy()
+        sgnl_out = solver_out.ysave[0:solver_out.count, npoints  : 2*npoints].copy()
+        idlr_out = solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints].copy()
         zs       = solver_out.xsave[0:solver_out.count]
         print ('Pulse velocity is ~ '+str(self.approx_pulse_speed*1e-12)+'mm/fs' )
         print('ks: '+str(self.k_p_0)+' '+str(self.k_s_0)+' '+str(self.k_i_0))
-- 
2.43.0


From 1a508e7ab7e092921ed93d394b5821cddfe9e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:35 +0000
Subject: [PATCH 27/53] fix: XTAL_AgGaS does not import the removed exceptions
 module

---
 src/pynlo/media/crystals/XTAL_AgGaS.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/media/crystals/XTAL_AgGaS.py b/src/pynlo/media/crystals/XTAL_AgGaS.py
index 665c97a..500fa74 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaS.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaS.py
@@ -25,7 +25,6 @@ from __future__ import print_function
 
 import numpy as np
 from pynlo.media.crystals.CrystalContainer import Crystal
-import exceptions 
 
 class AgGaSe2(Crystal):
     def __init__(self, theta = 0.0, **params):
@@ -96,7 +95,7 @@ class AgGaSe2(Crystal):
             return no
         elif axis == 'e':
             return ne
-        raise exceptions.ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
+        raise ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
     def phasematch(self, pump_wl_nm, sgnl_wl_nm, idlr_wl_nm, return_wavelength = False):
         """ Phase match mixing between pump (aligned to a mix of ne and no) and
             signal and idler (aligned to ordinary axis.)"""
@@ -133,7 +132,7 @@ class AgGaSe2(Crystal):
         if x < 0:
             x = ( -b - np.sqrt(b**2-4*a*c) )/ (2.0  * a)
         if np.isnan(np.arccos(x)) :
-            raise exceptions.AttributeError('No phase matching condition.')
+            raise AttributeError('No phase matching condition.')
         theta = np.arccos(x)
         print('Angle set to ',360*theta / (2.0*np.pi) )
         if RET_WL and return_wavelength:
-- 
2.43.0


From 82dad2f4d0d3b6a4550b9687faccfadb89b2925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:35 +0000
Subject: [PATCH 28/53] fix: calc_compressor_dnphi_domega_n units are fs^(n+1)
 for every order

---
 src/pynlo/devices/grating_compressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 8e85320..b9d2ec5 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -150,8 +150,8 @@ class TreacyCompressor:
         dphidw = fn(ws)        
         y = signal.savgol_filter(dphidw, window_length = 11,
                              polyorder = 7, deriv = dispersion_order)
-        dw = (ws[1] - ws[0])*10**(-15*(1+dispersion_order))
-        return y[50]/(dw**dispersion_order)
+        dw = ws[1] - ws[0]
+        return y[50]/(dw**dispersion_order * 10.0**(-15*(1+dispersion_order)))
     
     
     def apply_phase_to_pulse(self, grating_separation_meters, pulse):
-- 
2.43.0


From 7e99fe4ddbb8cdc5f99fe3483b701a4a12e4db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 29/53] fix: SSFM step control no longer keeps a trial step
 that overflowed

The estimate of a trial that overflowed is not a number, and every
comparison with it is false, so the step was kept and enlarged and the
whole output became NaN.
---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 7048f52..fd67988 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -330,7 +330,11 @@ class SSFM:
                 print ("iteration:",self.iter,"dz:",dz,"distance:", dist,\
                       "local error", delta )
 
-            if delta > 2.0*self.local_error:
+            # A trial that overflowed has no error estimate; it is never good
+            # unless the field it started from was already not finite.
+            overflow = np.isnan(delta) and np.all(np.isfinite(self.A))
+
+            if delta > 2.0*self.local_error or overflow:
                 # Discard the solution, decrease step
                 new_dz = dz/2.0
                 if new_dz >= self.dz_min:
-- 
2.43.0


From 48b825ef252294d454e3882adf147aac961402f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 30/53] fix: a mixing problem with equal pump and signal
 wavelengths raises the documented error

---
 .../interactions/ThreeWaveMixing/DFG_integrand.py     | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index 6245660..0cae83f 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -80,6 +80,12 @@ class dfg_problem:
             self._calc_gouy = apply_gouy_phase                    
         
 
+        # Double check that fields do not overlap
+        if ( max(pump_in.wl_nm) > min(sgnl_in.wl_nm) ): 
+            print ("pump_max: ", max(pump_in.wl_nm))            
+            print ("sgnl min: ", min(sgnl_in.wl_nm))            
+            raise ValueError("Pump and signal field grids overlap.")
+
         # Create idler Pulse.
         
         # The idler grid must be centered to match DFG of the pump and signal
@@ -94,11 +100,6 @@ class dfg_problem:
                              time_window_ps         = pump_in.time_window_ps)        
         
 
-        # Double check that fields do not overlap
-        if ( max(pump_in.wl_nm) > min(sgnl_in.wl_nm) ): 
-            print ("pump_max: ", max(pump_in.wl_nm))            
-            print ("sgnl min: ", min(sgnl_in.wl_nm))            
-            raise ValueError("Pump and signal field grids overlap.")
         if ( max(sgnl_in.wl_nm) > min(idlr_in.wl_nm) ):
             print ("sgnl max: ", max(sgnl_in.wl_nm))
             print ("idlr min: ", min(idlr_in.wl_nm))
-- 
2.43.0


From a85eca7b1258baab1820964568089aa728219b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:42 +0000
Subject: [PATCH 31/53] fix: the wavefront radius of a beam at its focus is
 infinite, not NaN

---
 src/pynlo/light/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/beam.py b/src/pynlo/light/beam.py
index 7423dc7..bcaeecb 100644
--- a/src/pynlo/light/beam.py
+++ b/src/pynlo/light/beam.py
@@ -75,7 +75,7 @@ class OneDBeam:
         """ Calculate beam curvature. :
             R(z) = z * [ 1 +  (z_R/ z)**2 ]"""
         z_r = self.calculate_zR(n_s)
-        return z * (1 + (z_r/z)**2)
+        return z + z_r**2 / z
         
     def calculate_gouy_phase(self, z, n_s):
         """ Return the Gouy phase shift due to focusing a distance z in a crystal,
-- 
2.43.0


From 6b8ce4338c4a7155227fc0408cf670cc04ffb9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:05 +0000
Subject: [PATCH 32/53] fix: impossible colours are coerced for scalar
 wavelengths too, as announced

---
 src/pynlo/devices/grating_compressor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index b9d2ec5..7caf956 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -79,9 +79,7 @@ class TreacyCompressor:
             print( "Bad value for argument of arcsin: ",\
                 l/self.d  - np.sin(self.g),'. You are probably asking for diffraction of an impossible color (this wavelength is ',l*1e9,'nm. Coercing to [-1,1].' )
         val = l/self.d  - np.sin(self.g)
-        if type(val) == np.ndarray:
-            val[val>1] = 1
-            val[val<-1] = -1
+        val = np.clip(val, -1, 1)
 
         alpha = np.arcsin(val )
         if display_angle:
-- 
2.43.0


From 6725ec73464988da6eca85d91a28b619113f4d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:05 +0000
Subject: [PATCH 33/53] fix: calc_compressor_HOD differentiates with a step
 that survives rounding

---
 src/pynlo/devices/grating_compressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 7caf956..888a22b 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -132,8 +132,8 @@ class TreacyCompressor:
         return misc.derivative(fn, 
                                       w_of_l(wavelength_nm),
                                       n     = dispersion_order - 2,
-                                      dx    = 2.0*np.pi*100.0e6, # Use dx = 100 MHz
-                                      order = 101 ) # Why not use 101's order?
+                                      dx    = 2.0*np.pi*100.0e9, # Use dx = 100 GHz
+                                      order = 11 )
     
     
     def calc_compressor_dnphi_domega_n(self, wavelength_nm, grating_separation_meters, dispersion_order):
-- 
2.43.0


From 1a1252888ae627f0a60c47f20dd8abb3c2bc5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:05 +0000
Subject: [PATCH 34/53] fix: calc_compressor_dnphi_domega_n fits over a window
 that survives rounding

---
 src/pynlo/devices/grating_compressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 888a22b..e850f9a 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -144,7 +144,7 @@ class TreacyCompressor:
         w_of_l = lambda x: 2.0*np.pi*constants.speed_of_light / (x*1.0e-9)    
         fn = lambda x:self.calc_dphi_domega(x, grating_separation_meters)        
         w0 = w_of_l(wavelength_nm)        
-        ws = np.linspace(w0 - 10.0e12,w0 + 10.0e12, 101) 
+        ws = np.linspace(w0 - 50.0e12,w0 + 50.0e12, 101) 
         dphidw = fn(ws)        
         y = signal.savgol_filter(dphidw, window_length = 11,
                              polyorder = 7, deriv = dispersion_order)
-- 
2.43.0


From 6043e91f2489afd7857fce85619dffb4f1fd1f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:29 +0000
Subject: [PATCH 35/53] fix: the coherence of weak fields is normalised without
 single-precision underflow

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index fd67988..a8ff267 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -604,7 +604,7 @@ class SSFM:
             for n2, (y, E2, AT, pulsein, pulseout) in enumerate(results):
                 if n1 == n2: continue # don't compare the same trial
 
-                g12 = np.conj(E1)*E2/np.sqrt(np.abs(E1)**2 * np.abs(E2)**2)
+                g12 = (np.conj(E1)/np.abs(E1)) * (E2/np.abs(E2))
                 if 'g12_stack' not in locals():
                     g12_stack = g12
                 else:
-- 
2.43.0


From bef313a16606e1da27a457e3a21e30c68fadec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:35 +0000
Subject: [PATCH 36/53] fix: the gain scale is found for spectra whose unscaled
 gain is large

---
 src/pynlo/media/fibers/fiber.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 994cb77..64aa29c 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -327,12 +327,13 @@ class FiberInstance:
                                  bounds_error=False,fill_value=0)
                     gain_spec = f(pulse.W_mks/ (2*np.pi))
 
-                    g = lambda k: np.abs(output_power - pulse.frep_mks * pulse.dT_mks*
+                    # compare logarithms, in which the power is nearly linear in k
+                    g = lambda k: np.abs(np.log(pulse.frep_mks * pulse.dT_mks*
                                         np.trapz(np.abs(
                                             IFFT_t( pulse.AW *
                                                 np.exp(k*gain_spec*self.length/2.0)
                                                 )
-                                                )**2))
+                                                )**2) / output_power))
 
                     scale_factor = minimize(g, 1, method='Powell')
 #                    print 'Power:',pulse.frep * pulse.dt_seconds*\
-- 
2.43.0


From 27015fd8035aa27bb212127e69e50d6d6e09356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:39 +0000
Subject: [PATCH 37/53] fix: the search for the gain scale starts from no gain,
 so partial spectra reach the requested power

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 64aa29c..b686872 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -335,7 +335,7 @@ class FiberInstance:
                                                 )
                                                 )**2) / output_power))
 
-                    scale_factor = minimize(g, 1, method='Powell')
+                    scale_factor = minimize(g, 0, method='Powell')
 #                    print 'Power:',pulse.frep * pulse.dt_seconds*\
 #                                        np.trapz(np.abs(
 #                                            IFFT_t( FFT_t(pulse.A) *
-- 
2.43.0


From be0f9868915ee98f409a9e59b35638fa303a5666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:28 +0000
Subject: [PATCH 38/53] fix: remember a pulse's cached grid as current only
 once it has been computed

---
 src/pynlo/light/PulseBase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index ef12cc9..7fc951c 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -128,8 +128,8 @@ class Pulse:
         if (self.cache_hash == self._cache_wl_nm_hash):
            return self._cache_wl_nm.copy()
         else:
-           self._cache_wl_nm_hash = self.cache_hash
            self._cache_wl_nm = 2*np.pi*self._c_nmps / self.W_THz
+           self._cache_wl_nm_hash = self.cache_hash
            return self._cache_wl_nm.copy()
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_m(self):    
@@ -151,8 +151,8 @@ class Pulse:
         if (self._cache_W_Hz_hash == self.cache_hash):
             return self._cache_W_Hz.copy()
         else:
-            self._cache_W_Hz_hash = self.cache_hash
             self._cache_W_Hz                 =  self._W * 1e12
+            self._cache_W_Hz_hash = self.cache_hash
             return self._cache_W_Hz.copy()
     def _get_F_Hz(self):
         return self._get_W_Hz() / (2.0*np.pi)            
-- 
2.43.0


From 7bd7ddc6cf247d037cb55af0d730fdb489dc70b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 39/53] fix: crystal dispersion parameter D has the standard
 sign, -(lambda/c) n''

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index b99a4b1..2e9c3d9 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -105,7 +105,7 @@ class Crystal:
             standard photonic engineering units ps/nm/km"""        
         fn = lambda x: self.n(x, axis)
         d2n_dl2 = misc.derivative(fn, wavelengths_nm, dx = 0.1, n = 2, order = 11)
-        D1      = (wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
+        D1      = -(wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
         D       = D1 * 1.0e12
         return D    
     def calculate_D_fs_um_mm(self, wavelengths_nm, axis = None):
-- 
2.43.0


From 5c0a7d798dde69c40b577ba78d19ad369e54bbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 40/53] fix: crystal velocity and dispersion calculations use
 the default axis when none is given

---
 src/pynlo/media/crystals/CrystalContainer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index 2e9c3d9..23277b7 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -80,11 +80,17 @@ class Crystal:
             else:
                 ns = self.n(pulse_instance.wl_nm, axis)
         return ns
+    def _n_along(self, wavelengths_nm, axis = None):
+        """ Index of refraction at 'wavelengths_nm' [nm] along 'axis', or along
+            the crystal's default axis if 'axis' is None """
+        if axis is None:
+            return self.n(wavelengths_nm)
+        return self.n(wavelengths_nm, axis)
     def calculate_group_velocity_nm_ps(self, wavelengths_nm, axis = None):
         """ Calculate group velocity vg at 'wavelengths_nm' [nm] along 'axis'
             in units of nm/ps """
         # Equation 4.7.7b in Verdeyen
-        fn = lambda x: self.n(x, axis)
+        fn = lambda x: self._n_along(x, axis)
         dn_dl = misc.derivative(fn, wavelengths_nm, dx = 0.1, n = 1, order = 11)
         vg_inverse = (1.0 / self._c_nm_ps) * (fn(wavelengths_nm) - wavelengths_nm * dn_dl)
         return 1.0 / vg_inverse
@@ -103,7 +109,7 @@ class Crystal:
     def calculate_D_ps_nm_km(self, wavelengths_nm, axis = None):
         """ Calculate crystal dispersion at 'wavelengths_nm' [nm] along 'axis' in
             standard photonic engineering units ps/nm/km"""        
-        fn = lambda x: self.n(x, axis)
+        fn = lambda x: self._n_along(x, axis)
         d2n_dl2 = misc.derivative(fn, wavelengths_nm, dx = 0.1, n = 2, order = 11)
         D1      = -(wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
         D       = D1 * 1.0e12
-- 
2.43.0


From 614155bc0c6e5bc51c93d6d59aaf06daf99ff302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:01 +0000
Subject: [PATCH 41/53] fix: inverted poling period returns a signal that is
 phase matched

---
 src/pynlo/media/crystals/CrystalContainer.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index 23277b7..77681f5 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -176,12 +176,24 @@ class Crystal:
             
         """
 
+        # The inverse period is a smooth function of wavelength (the period is
+        # not), but it need not be monotonic: scan for the sign change.
         def err_fn(wl_s):
-            return (self.calculate_poling_period(pump_wl_nm, wl_s, None, silent = True)[0] - poling_period_mks )**2
-        
-        res = optimize.minimize_scalar(err_fn, bounds = [pump_wl_nm*1.001, max_signal_wl_nm],
+            return 1.0 / self.calculate_poling_period(pump_wl_nm, wl_s, None, silent = True)[0] - \
+                   1.0 / poling_period_mks
+
+        wls  = np.linspace(pump_wl_nm*1.001, max_signal_wl_nm, 1001)
+        errs = np.array([err_fn(wl) for wl in wls])
+        crossings = np.flatnonzero(errs[:-1] * errs[1:] <= 0)
+        if len(crossings) > 0:
+            idx = crossings[0]
+            return optimize.brentq(err_fn, wls[idx], wls[idx + 1])
+
+        # Not phasematched anywhere: return the closest signal
+        idx = np.nanargmin(np.abs(errs))
+        res = optimize.minimize_scalar(lambda wl: err_fn(wl)**2,
+                                 bounds = [wls[max(idx - 1, 0)], wls[min(idx + 1, len(wls) - 1)]],
                                  method = 'bounded')
-        
         return res.x
 
     def set_caching(self, cache_enable = True):
-- 
2.43.0


From 7e407cce4db00eb70b17a477c2cd6f48b46fea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:15 +0000
Subject: [PATCH 42/53] fix: SSFM: reordering a field for output no longer
 reorders the solver's own field

With an odd number of points the reorderings did not cancel in pairs, so
the returned pulse and every output after the first were scrambled.
---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index a8ff267..4aae35c 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -767,14 +767,12 @@ class SSFM:
             return np.linalg.norm(self.Af-self.Ac)
     def conditional_ifftshift(self, x):
         if global_variables.PRE_FFTSHIFT:
-            x[:] = ifftshift(x)
-            return x
+            return ifftshift(x)
         else:
             return x
     def conditional_fftshift(self, x):
         if global_variables.PRE_FFTSHIFT:
-            x[:] = fftshift(x)
-            return x
+            return fftshift(x)
         else:
             return x            
     def cleanup(self):
-- 
2.43.0


From a8f5e6fd3df166240374a8b0d64fa1d2186a4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:16 +0000
Subject: [PATCH 43/53] fix: SSFM: the frequency-domain Raman response uses its
 own fraction f_R0

It used f_R, which the time-domain response overwrites, so f_R0 had no
effect and a solver's second propagation differed from its first.
---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 4aae35c..259bb75 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -262,7 +262,7 @@ class SSFM:
             omega = self.omegas[i]
             H_R = C*TAU1*TAU2**2 / \
                   (TAU1**2 + TAU2**2 - 2j*omega*TAU1**2*TAU2 - TAU1**2*TAU2**2*omega**2)
-            self.R0[i] = (1.0-F_R) + (F_R * H_R)
+            self.R0[i] = (1.0-self.f_R0) + (self.f_R0 * H_R)
         
         # More conventional way of generating this, via Dudley    
         tau1 = self.tau_1
-- 
2.43.0


From 1be115d7b92d2a805e9c33a50d9329e9292607cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:16 +0000
Subject: [PATCH 44/53] fix: SSFM: normalisation of h_a in the Raman response
 of Lin & Agrawal

h_a was a factor of about nine too small against h_b, so the boson peak
dominated the response.
---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 259bb75..decc946 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -285,7 +285,7 @@ class SSFM:
             fc = 0.04
             F_R = 0.245
             self.f_R = np.copy(F_R)
-            ha = tau1 / (tau1**2 + tau2**2) * np.exp(-T / tau2) * np.sin(T / tau1)
+            ha = (tau1**2 + tau2**2) / (tau1 * tau2**2) * np.exp(-T / tau2) * np.sin(T / tau1)
             hb = (2*taub - T) / taub**2 * np.exp(-T / taub)
             RT = (fa + fc)*ha + fb*hb
             RT[0:pulse.NPTS>>1]=0
-- 
2.43.0


From f7acf1da54cb755b017743b1037578975db61a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:52 +0000
Subject: [PATCH 45/53] fix: CWPulse refuses an offset below the grid instead
 of wrapping it to another frequency

---
 src/pynlo/light/DerivedPulses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index bfa2c00..d1636f0 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -205,6 +205,8 @@ class CWPulse(Pulse):
         else:
             dF = 1.0/time_window_ps
             n_offset = np.round( offset_from_center_THz/dF)      
+            if not 0 <= int(self.NPTS/2.0) + int(n_offset) < self.NPTS:
+                raise ValueError('CW frequency lies outside the grid.')
             
             center_THz = self._c_nmps/center_wavelength_nm -\
                                     n_offset * dF
-- 
2.43.0


From 04fb85f577974e1fc2c6501799079e7566eee962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:14 +0000
Subject: [PATCH 46/53] fix: DFGWriter creates its arrays under the name
 PyTables 3 gives the method

---
 .../ThreeWaveMixing/multi_run_rw.py           | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 98fa86f..d5b95dd 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -113,41 +113,41 @@ class DFGWriter:
         # Store pump, signal, idler fields        
         atom = tables.Atom.from_dtype(odesolver.out.ysave[0:count, 0 : npts].T.dtype)
         data_shape = odesolver.out.ysave[0:count, 0 : npts].T.shape
-        pump_data = self.tables_file.createCArray(grp, 'pump', atom, data_shape)
+        pump_data = self.tables_file.create_carray(grp, 'pump', atom, data_shape)
         pump_data[:] = odesolver.out.ysave[0:count, 0 : npts].T
-        sgnl_data = self.tables_file.createCArray(grp, 'sgnl', atom, data_shape)      
+        sgnl_data = self.tables_file.create_carray(grp, 'sgnl', atom, data_shape)      
         sgnl_data[:] = odesolver.out.ysave[0:count, npts : 2 * npts].T
-        idlr_data = self.tables_file.createCArray(grp, 'idlr', atom, data_shape)
+        idlr_data = self.tables_file.create_carray(grp, 'idlr', atom, data_shape)
         idlr_data[:] = odesolver.out.ysave[0:count, 2*npts : 3 * npts].T
         
         # By the design of the pulse class, the three things we need are center
         # wavelength, time window, and rep rate (N points is set by the array sizes)
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_twind = self.tables_file.createCArray(grp, 'pump_Twind', atom, data_shape)
+        pump_twind = self.tables_file.create_carray(grp, 'pump_Twind', atom, data_shape)
         pump_twind[:] = integrand.pump.time_window_ps
-        sgnl_twind = self.tables_file.createCArray(grp, 'sgnl_Twind', atom, data_shape)
+        sgnl_twind = self.tables_file.create_carray(grp, 'sgnl_Twind', atom, data_shape)
         sgnl_twind[:] = integrand.sgnl.time_window_ps
-        idlr_twind = self.tables_file.createCArray(grp, 'idlr_Twind', atom, data_shape)
+        idlr_twind = self.tables_file.create_carray(grp, 'idlr_Twind', atom, data_shape)
         idlr_twind[:] = integrand.idlr.time_window_ps
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_wlc = self.tables_file.createCArray(grp, 'pump_center_nm', atom, data_shape)
+        pump_wlc = self.tables_file.create_carray(grp, 'pump_center_nm', atom, data_shape)
         pump_wlc[:] = integrand.pump.center_wavelength_nm
-        sgnl_wlc = self.tables_file.createCArray(grp, 'sgnl_center_nm', atom, data_shape)
+        sgnl_wlc = self.tables_file.create_carray(grp, 'sgnl_center_nm', atom, data_shape)
         sgnl_wlc[:] = integrand.sgnl.center_wavelength_nm
-        idlr_wlc = self.tables_file.createCArray(grp, 'idlr_center_nm', atom, data_shape)
+        idlr_wlc = self.tables_file.create_carray(grp, 'idlr_center_nm', atom, data_shape)
         idlr_wlc[:] = integrand.idlr.center_wavelength_nm
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        fr = self.tables_file.createCArray(grp, 'frep_Hz', atom, data_shape)
+        fr = self.tables_file.create_carray(grp, 'frep_Hz', atom, data_shape)
         fr[:] = integrand.pump.frep_Hz
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        para = self.tables_file.createCArray(grp, 'param', atom, data_shape)
+        para = self.tables_file.create_carray(grp, 'param', atom, data_shape)
         para[:] = param
         
         self.tables_file.flush()
-- 
2.43.0


From 036d3cfdfcc327adee20e40982246be8afab3e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:14 +0000
Subject: [PATCH 47/53] fix: DFGWriter splits the fields at an integer number
 of points

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index d5b95dd..ac94ba2 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -107,7 +107,7 @@ class DFGWriter:
             
     def add_run(self,integrand, odesolver, param):
         grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
-        npts           = odesolver.nvar / 3
+        npts           = odesolver.nvar // 3
         count          = odesolver.out.nsave
         
         # Store pump, signal, idler fields        
-- 
2.43.0


From bc85e0c7576c2069cfd94303e78932e2f709aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:14 +0000
Subject: [PATCH 48/53] fix: DFGWriter stores the repetition rate the pulse has
 (frep_mks)

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index ac94ba2..c8a5f1e 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -143,7 +143,7 @@ class DFGWriter:
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
         fr = self.tables_file.create_carray(grp, 'frep_Hz', atom, data_shape)
-        fr[:] = integrand.pump.frep_Hz
+        fr[:] = integrand.pump.frep_mks
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-- 
2.43.0


From b066a7f47efbde996732862eebd6aad350d14698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:14 +0000
Subject: [PATCH 49/53] fix: DFGWriter stores every saved position, the end of
 the crystal included

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index c8a5f1e..a37fe03 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -108,7 +108,7 @@ class DFGWriter:
     def add_run(self,integrand, odesolver, param):
         grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
         npts           = odesolver.nvar // 3
-        count          = odesolver.out.nsave
+        count          = odesolver.out.count
         
         # Store pump, signal, idler fields        
         atom = tables.Atom.from_dtype(odesolver.out.ysave[0:count, 0 : npts].T.dtype)
-- 
2.43.0


From 205085da2c1b1065f2975c3147f166a9306f5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:14 +0000
Subject: [PATCH 50/53] fix: DFGWriter replaces a parameter that already has
 runs

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index a37fe03..206da14 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -102,7 +102,7 @@ class DFGWriter:
             self.root = self.tables_file.create_group('/', param_name)
         except tables.NodeError:
             print ('Parameter "'+param_name+'" already in table; deleting existing data.')
-            self.tables_file.remove_node('/', param_name)
+            self.tables_file.remove_node('/', param_name, recursive=True)
             self.root = self.tables_file.create_group('/', param_name)
             
     def add_run(self,integrand, odesolver, param):
-- 
2.43.0


From 4fdcbe8205b75b06d99f02229e984b12a574a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:14 +0000
Subject: [PATCH 51/53] fix: DFGReader gives each run's pulses that run's
 repetition rate

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 206da14..6926ff5 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -53,6 +53,7 @@ class DFGReader:
             z_num = -1
             
         run = self.root_name+'/run'+str(run_num)
+        frep_Hz = self.tables_file.get_node(run+'/frep_Hz')[0]
         
         # Read in and generate pump pulse
         pump_field  = self.tables_file.get_node(run+'/pump')[:,z_num]
@@ -63,7 +64,7 @@ class DFGReader:
         p.set_center_wavelength_nm(pump_center)
         p.set_time_window_ps(pump_Twind)
         p.set_AW(pump_field)
-        p.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        p.set_frep_MHz(frep_Hz * 1.0e-6)
         
         # Read in and generate signal pulse
         sgnl_field  = self.tables_file.get_node(run+'/sgnl')[:,z_num]
@@ -74,7 +75,7 @@ class DFGReader:
         s.set_center_wavelength_nm(sgnl_center)
         s.set_time_window_ps(sgnl_Twind)
         s.set_AW(sgnl_field)
-        s.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        s.set_frep_MHz(frep_Hz * 1.0e-6)
 
         # Read in and generate idler pulse
         idlr_field  = self.tables_file.get_node(run+'/idlr')[:,z_num]
@@ -85,7 +86,7 @@ class DFGReader:
         i.set_center_wavelength_nm(idlr_center)
         i.set_time_window_ps(idlr_Twind)
         i.set_AW(idlr_field)
-        i.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        i.set_frep_MHz(frep_Hz * 1.0e-6)
         
         return (p, s, i)
         
-- 
2.43.0


From 47986f04c9a1c5ace84f2f0f271be45f78b96a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:40 +0000
Subject: [PATCH 52/53] fix: DTabulationToBetas reads a dispersion file again
 (genfromtxt has skip_header, not skiprows)

---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index 3459fc1..0084cde 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -36,7 +36,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     # Expand about lambda0
     makePlots = 0
     if DDataIsFile:
-        DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
+        DTab = np.genfromtxt(DData,delimiter=',',skip_header=1)
     else:
         DTab = np.array(DData, dtype=float)
             
-- 
2.43.0


From 524b327c97f1ec2c4b12252e0ab5f6ce117af779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:12 +0000
Subject: [PATCH 53/53] fix: the best overlapping waist is found when the
 beams' wavenumbers coincide

---
 src/pynlo/light/beam.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/beam.py b/src/pynlo/light/beam.py
index bcaeecb..573b47e 100644
--- a/src/pynlo/light/beam.py
+++ b/src/pynlo/light/beam.py
@@ -155,9 +155,13 @@ class OneDBeam:
         k1 = self.get_k_in_crystal(this_pulse, crystal_instance)
         k2 = othr_beam.get_k_in_crystal(othr_pulse, crystal_instance)
 
-        obj_fn = lambda zr1: -1.0*np.sum((4*k1*k2*zr1*abs(zr2) *\
-            np.arctan( ((k1 - k2)*L)/(k2*zr1 + k1*abs(zr2)))/\
-            ((k1 - k2)*(k2*zr1 + k1*abs(zr2)))))
+        def obj_fn(zr1):
+            denom = k2*zr1 + k1*abs(zr2)
+            x = (k1 - k2)*L/denom
+            # arctan(x)/x, which is 1 where the wavenumbers are equal
+            atan_x = np.ones_like(x)
+            np.divide(np.arctan(x), x, out = atan_x, where = x != 0)
+            return -1.0*np.sum(4*k1*k2*zr1*abs(zr2)*L*atan_x/denom**2)
         
         result = optimize.minimize(obj_fn, zr2,  method = 'Powell')
         # From w0**2 = b lambda/ 2 pi n:
-- 
2.43.0

