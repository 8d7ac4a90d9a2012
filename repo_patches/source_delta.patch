From b726742a550d8879f6bcd33ce54c2fec8b8b3ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:25 +0000
Subject: [PATCH 01/47] fix: SSFM.propagate no longer uses np.float, removed
 from numpy

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 91cc905..091a04e 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -524,7 +524,7 @@ class SSFM:
         
 
         for i in range(n_steps):                        
-            print ("Step:", i, "Distance remaining:", fiber.length * (1 - np.float(i)/n_steps) )
+            print ("Step:", i, "Distance remaining:", fiber.length * (1 - float(i)/n_steps) )
             
             if reload_fiber_each_step:
                 self.load_fiber_parameters(pulse_in, fiber, output_power, z=i*delta_z) 
-- 
2.43.0


From 43a7b84e7b0956704ef1883450bf35e7c9a052d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:25 +0000
Subject: [PATCH 02/47] fix: center_wavelength_mks is in meters (nm * 1e-9)

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 0b9b249..408ee47 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -137,7 +137,7 @@ class Pulse:
     def _get_center_wavelength_nm(self):
         return self._c_nmps / self._centerfrequency
     def _get_center_wavelength_mks(self):
-        return (self._c_nmps / self._centerfrequency )*1.0e9
+        return (self._c_nmps / self._centerfrequency )*1.0e-9
     def _get_center_frequency_THz(self):
         return self._centerfrequency        
     def _get_center_frequency_mks(self):
-- 
2.43.0


From 7f79915b2d1726b4071d641d27fc1cc543d9e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:58 +0000
Subject: [PATCH 03/47] fix: Pulse grid caches depend on the time window and
 are not aliased to callers

---
 src/pynlo/light/PulseBase.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 408ee47..f5c3710 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -126,11 +126,11 @@ class Pulse:
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_nm(self):
         if (self.cache_hash == self._cache_wl_nm_hash):
-           return self._cache_wl_nm
+           return self._cache_wl_nm.copy()
         else:
            self._cache_wl_nm_hash = self.cache_hash
            self._cache_wl_nm = 2*np.pi*self._c_nmps / self.W_THz
-           return self._cache_wl_nm
+           return self._cache_wl_nm.copy()
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_m(self):    
         return 2*np.pi*self._c_mks / self.W_mks
@@ -146,14 +146,14 @@ class Pulse:
     def _get_NPTS(self):
         return self._n
     def _get_hash(self):
-        return str(self._centerfrequency)+str(self.NPTS)    
+        return '%r,%r,%r,' % (self._centerfrequency, self._n, self._time_window)
     def _get_W_Hz(self):
         if (self._cache_W_Hz_hash == self.cache_hash):
-            return self._cache_W_Hz
+            return self._cache_W_Hz.copy()
         else:
             self._cache_W_Hz_hash = self.cache_hash
             self._cache_W_Hz                 =  self._W * 1e12
-            return self._cache_W_Hz
+            return self._cache_W_Hz.copy()
     def _get_F_Hz(self):
         return self._get_W_Hz() / (2.0*np.pi)            
     def _get_W_THz(self):
-- 
2.43.0


From 3f6eb4fc4a7c4f3a0a5a28a14bd170e96bb5efce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:58 +0000
Subject: [PATCH 04/47] fix: intensity autocorrelation correlates intensity
 with intensity

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index f5c3710..a258f5c 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -873,7 +873,7 @@ class Pulse:
             time grid.
             
         """  
-        return np.correlate(abs(self.AT)**2, abs(self.AT), mode='same')  
+        return np.correlate(abs(self.AT)**2, abs(self.AT)**2, mode='same')  
         
     def write_frog(self,
                  fileloc = 'broadened_er_pulse.dat', # default EDFA spectrum
-- 
2.43.0


From 6a62a9436cb6b4bf45960417b290fc4498cd87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:58 +0000
Subject: [PATCH 05/47] fix: cloning or loading into a pulse of a different
 NPTS no longer fails

---
 src/pynlo/light/PulseBase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index a258f5c..90ad29d 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -806,6 +806,7 @@ class Pulse:
         self.set_AW(AW_new)        
     def clone_pulse(self, p):
         '''Copy all parameters of pulse_instance into this one'''
+        self._AW = None # Force generation of new array
         self.set_NPTS(p.NPTS)
         self.set_time_window_ps(p.time_window_ps)
         self.set_center_wavelength_nm(p.center_wavelength_nm)
@@ -820,6 +821,7 @@ class Pulse:
              "AT_im" : self.AT.imag.tolist()}
         return d
     def load_pulse_dict(self, d):    
+        self._AW = None # Force generation of new array
         self.set_NPTS(d["NPTS"])
         self.set_time_window_ps(d["time_window_ps"])
         self.set_center_wavelength_nm(d["center_wavelength_nm"])
-- 
2.43.0


From 75157f3991775d2f51820b517f470fbe427e01ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:58 +0000
Subject: [PATCH 06/47] fix: Pulse.write_frog writes a file FROGPulse reads
 back

---
 src/pynlo/light/PulseBase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 90ad29d..1211df9 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -892,9 +892,11 @@ class Pulse:
         is multiplied by frep to calculate pulse energy"""       
         
         self.fileloc   = fileloc             
-        phase_data = np.unwrap(np.angle(self.get_AW()))
-        inten_data = np.abs(self.get_AW())
-        wavel_data = self.internal_wl_to_nm(self.wl_nm)
+        phase_data = np.unwrap(np.angle(self.AW))
+        if flip_phase:
+            phase_data = -1 * phase_data
+        inten_data = np.abs(self.AW)
+        wavel_data = self.wl_nm
         
         # Write pulse data file
         np.savetxt(self.fileloc, np.vstack((wavel_data, inten_data, phase_data)).T) 
-- 
2.43.0


From ea09f979a54a2be5b32d63ac35d7c0cfc4475680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:58 +0000
Subject: [PATCH 07/47] fix: spectrogram frequency axis is not mirrored about
 the center frequency

---
 src/pynlo/light/PulseBase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 1211df9..f2e9228 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -991,13 +991,13 @@ class Pulse:
             
             gate_function_real = scipy.ndimage.interpolation.map_coordinates(np.real(AT), (tcoord, dcoord))
             gate_function_imag = scipy.ndimage.interpolation.map_coordinates(np.imag(AT), (tcoord, dcoord))
-            gate_function = gate_function_real + 1j*gate_function_imag
+            gate_function = gate_function_real - 1j*gate_function_imag
 
         else:
             raise ValueError('Type \""%s\"" not recognized. Type must be \"xfrog\" or \"frog\".'%gate_type)
             
         # make a 2D array of E(time, delay)
-        E = amp * gate_function * np.exp(1j*(2 * np.pi * T * self.center_frequency_THz + phase) )
+        E = amp * gate_function * np.exp(1j*(2 * np.pi * T * self.center_frequency_THz - phase) )
         
         spectrogram = np.fft.fft(E, axis=0)
         freqs = np.fft.fftfreq(np.shape(E)[0], t[1]-t[0])
-- 
2.43.0


From e774e22fa29b565d21dd6bf7ec57ec6f384964fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:58 +0000
Subject: [PATCH 08/47] fix: spectral gain and gain-goal propagation use an
 existing repetition-rate property

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 6 +++---
 src/pynlo/light/PulseBase.py                  | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 091a04e..f18ee0c 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -628,15 +628,15 @@ class SSFM:
                                                  1,
                                                  output_power = scalefactor *\
                                                                  power_goal)         
-        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep))
-        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep                                                                 
+        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep_mks))
+        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep_mks                                                                 
         output_scale = scalefactor
         while abs(modeled_avg_power - power_goal) / power_goal > powertol:
             y, AW, AT, pulse_out = self.propagate(pulse_in, fiber,
                                                      1, output_power = 
                                                      power_goal * scalefactor_revised)
             modeled_avg_power_prev = modeled_avg_power
-            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep
+            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep_mks
             slope = (modeled_avg_power - modeled_avg_power_prev) /\
                             (scalefactor_revised - scalefactor)                            
             yint = modeled_avg_power_prev - slope*scalefactor    
diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index f2e9228..6503df3 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -448,6 +448,7 @@ class Pulse:
     frep_MHz : float
         Pulse repetition frequency [MHz]
     """                
+    frep_Hz          = property(_get_frep_Hz)
     frep_mks         = property(_get_frep_Hz)
     """    
     Property: Repetition rate. Used for calculating average beam power.
-- 
2.43.0


From e49c2e63a039c212cc2c9f6f80832b04e7ad2ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:58 +0000
Subject: [PATCH 09/47] fix: SincPulse with average power generates a sinc
 pulse

---
 src/pynlo/light/DerivedPulses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 222ed6d..588d441 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -114,7 +114,7 @@ class SincPulse(Pulse):
             # numpy.sinc is sin(pi*x)/(pi*x), so we divide by pi
             self.set_AT( np.sqrt(power) * np.sinc(self.T_ps/(T0_ps*np.pi)) ) 
         else:
-            self.set_AT( 1 / np.sinc(np.pi * self.T_ps/(T0_ps*np.pi)) )
+            self.set_AT( np.sinc(self.T_ps/(T0_ps*np.pi)) )
             self.set_AT(self.AT * np.sqrt( power / ( frep_MHz*1.0e6 * self.calc_epp()) ))
         
         self.chirp_pulse_W(GDD, TOD)
-- 
2.43.0


From f13b982f152ce0f86d7b7aadb3c0046c0b4dfc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:58 +0000
Subject: [PATCH 10/47] fix: calculate_coherence honours random_seed,
 output_power and reload_fiber_each_step

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index f18ee0c..102dac1 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -580,13 +580,18 @@ class SSFM:
             obtained from :func:`pynlo.interactions.FourWaveMixing.SSFM.propagate`.
         """
         
+        if random_seed is not None:
+            np.random.seed(random_seed)
+
         results = []
         for num in range(0, num_trials):
 
             pulse = pulse_in.create_cloned_pulse()
             pulse.add_noise(noise_type=noise_type)
 
-            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps)
+            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps,
+                                                  output_power=output_power,
+                                                  reload_fiber_each_step=reload_fiber_each_step)
 
             results.append((y, AW, AT, pulse_in, pulse_out))
 
-- 
2.43.0


From b33a0453bf46e7fde269fcf90a45c2074b61fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 11/47] fix: SSFM does not overshoot when a rounding-size
 distance remains

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 102dac1..0ec1d74 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -366,7 +366,7 @@ class SSFM:
             dist -= 2.0*old_dz
             self.iter += 1
 #            printf("-> [%d] dz = %g dist = %g (old_dz = %g) (z = %g)\n",n,dz,dist,old_dz,self.z)
-            if (2.0*dz > dist) and (dist>2.0*self.dz_min):
+            if (2.0*dz > dist) and (dist > 0.0):
                 force_last_dz = True
                 return_dz = dz
                 dz = dist/2.0
-- 
2.43.0


From 02f58a757445212ee818818a8690d70fc4b0aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 12/47] fix: fiber instances do not share the fiberspecs
 dictionary

---
 src/pynlo/media/fibers/fiber.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 514bb4e..515d5a3 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -58,6 +58,7 @@ class FiberInstance:
     gamma       = None
     def __init__(self, fiber_db = 'general_fibers',
                        fiber_db_dir = None):
+        self.fiberspecs = {}
         self.c_mks = constants.speed_of_light
         self.c = constants.speed_of_light * 1e9/1e12 # c in nm/ps
         self.is_simple_fiber = False
@@ -91,6 +92,7 @@ class FiberInstance:
         else:
             self.fibertype = fiberName
         
+        self.fiberspecs = {}
         self.fiberspecs["dispersion_format"] = "D"
         self.poly_order = poly_order
         self.gain       = gain
-- 
2.43.0


From 26389395b63037f949ec1629f1566e89891b1374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 13/47] fix: database fibers with betas in ps^n/m keep their
 dispersion

---
 src/pynlo/media/fibers/fiber.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 515d5a3..684a10f 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -125,6 +125,8 @@ class FiberInstance:
             # If in km^-1 units, scale to m^-1
             if self.dispersion_gvd_units == 'ps^n/km':
                 self.betas = np.array(self.fiberspecs["dispersion_data"]) / 1e3
+            else:
+                self.betas = np.array(self.fiberspecs["dispersion_data"])
             return 1
         else:
             print( "Error: no dispersion found.")
-- 
2.43.0


From 3e00b56c709d6bbdf0750b8318bbbac682c7781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 14/47] fix: effective-index dispersion uses the speed of
 light, not 3e8

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 684a10f..88b1ab3 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -283,7 +283,7 @@ class FiberInstance:
             # self.x is the wavelength in nm
             # self.y is the refractive index (unitless)
             
-            supplied_W_THz = 2 * np.pi * 1e-12 * 3e8 / (self.x*1e-9)
+            supplied_W_THz = 2 * np.pi * 1e-12 * self.c_mks / (self.x*1e-9)
             supplied_betas = self.y * 2 * np.pi / (self.x * 1e-9)
             
             # InterpolatedUnivariateSpline wants increasing x, so flip arrays
-- 
2.43.0


From 4bf9ffcfe6665c966759334fc9b66033b6b81273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 15/47] fix: DTabulationToBetas does not modify the caller's
 table

---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index 5499a6c..a124787 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -38,7 +38,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     if DDataIsFile:
         DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
     else:
-        DTab = DData[:]
+        DTab = np.array(DData, dtype = float)
             
     # Units of D are ps/nm/km
     # Convert to s/m/m 
-- 
2.43.0


From fad7dba8926221b3bf213e565e44afa8f319b540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 16/47] fix: DTabulationToBetas reads files with current numpy

---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index a124787..e41ba94 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -36,7 +36,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     # Expand about lambda0
     makePlots = 0
     if DDataIsFile:
-        DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
+        DTab = np.genfromtxt(DData,delimiter=',',skip_header=1)
     else:
         DTab = np.array(DData, dtype = float)
             
-- 
2.43.0


From 66dc67d227d5f5c5f838b3e1a92de2322169e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 17/47] fix: crystal index caches and properties belong to one
 crystal in one state

---
 src/pynlo/media/crystals/CrystalContainer.py | 6 ++++--
 src/pynlo/media/crystals/XTAL_AgGaS.py       | 1 +
 src/pynlo/media/crystals/XTAL_AgGaSe2.py     | 1 +
 src/pynlo/media/crystals/XTAL_PPLN.py        | 2 ++
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index b6739e6..fc90280 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -38,6 +38,8 @@ class Crystal:
                             'damage_threshold_info' : ''}
     
     def __init__(self, params):                
+        self._cached_ns          = {}
+        self._crystal_properties = dict(self._crystal_properties)
         if 'length' in params.keys():
             self._length = params['length']
         else:
@@ -62,13 +64,13 @@ class Crystal:
             frequency grid inside the crystal """
         if self._enable_caching:
             if pulse_instance.cache_hash + str(axis) in self._cached_ns.keys():
-                return self._cached_ns[pulse_instance.cache_hash + str(axis)]
+                return self._cached_ns[pulse_instance.cache_hash + str(axis)].copy()
             else:
                 if axis is None:
                     ns = self.n(pulse_instance.wl_nm)
                 else:
                     ns = self.n(pulse_instance.wl_nm, axis)
-                self._cached_ns[pulse_instance.cache_hash + str(axis)]= ns
+                self._cached_ns[pulse_instance.cache_hash + str(axis)]= ns.copy()
         else:
             if axis is None:
                 ns = self.n(pulse_instance.wl_nm)
diff --git a/src/pynlo/media/crystals/XTAL_AgGaS.py b/src/pynlo/media/crystals/XTAL_AgGaS.py
index 665c97a..04d8b2f 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaS.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaS.py
@@ -69,6 +69,7 @@ class AgGaSe2(Crystal):
         self.deff  = 8.69e-12 # from SNLO, original given in pm / V        
     def set_theta(self, angle):
         self.theta = angle
+        self._cached_ns.clear()
     def n(self, wl_nm, axis = "mix"):        
         """ Axis specifies crystal axis, either o, e, or mix. If mix, class
             instances value for theta sets mixing angle (0 = pure ordinary). 
diff --git a/src/pynlo/media/crystals/XTAL_AgGaSe2.py b/src/pynlo/media/crystals/XTAL_AgGaSe2.py
index 905ed86..92086b3 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaSe2.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaSe2.py
@@ -63,6 +63,7 @@ class AgGaSe2(Crystal):
         self.deff  = 28.5e-12 # from SNLO, original given in pm / V        
     def set_theta(self, angle):
         self.theta = angle
+        self._cached_ns.clear()
     def n(self, wl_nm, axis = "mix"):        
         """ Axis specifies crystal axis, either o, e, or mix. If mix, class
             instances value for theta sets mixing angle (0 = pure ordinary). 
diff --git a/src/pynlo/media/crystals/XTAL_PPLN.py b/src/pynlo/media/crystals/XTAL_PPLN.py
index 601987a..e53d23c 100644
--- a/src/pynlo/media/crystals/XTAL_PPLN.py
+++ b/src/pynlo/media/crystals/XTAL_PPLN.py
@@ -100,6 +100,7 @@ class PPLN(Crystal):
         self.sellmeier_calculators = {'Deng' :DengSellmeier(T),
                                       'Gayer_5pctMg':Gayer5PctSellmeier(T)}
         self.n = self.sellmeier_calculators[data_source].n
+        self._cached_ns.clear()
         self.set_xtalT = self.sellmeier_calculators[data_source].set_T_degC
         
         self.deff=  14.9e-12 # from SNLO
@@ -116,6 +117,7 @@ class PPLN(Crystal):
     def set_T(self, T_degC):
         self.T = T_degC
         self.set_xtalT(T_degC)
+        self._cached_ns.clear()
         
     def calculate_poling_period(self, pump_wl_nm, sgnl_wl_nm, idlr_wl_nm, 
                                 delta_k_L  = 3.2, silent=False):
-- 
2.43.0


From 3a38c63b6fe9fba33e9414f5ad4f10796e18dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 18/47] fix: set_pp_chirp uses the crystal length

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index fc90280..b115d18 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -50,7 +50,7 @@ class Crystal:
             self._enable_caching = False
             
     def set_pp_chirp(self, start, stop):
-        self.pp   = lambda x: start + (stop-start) * x /self.length        
+        self.pp   = lambda x: start + (stop-start) * x / self.length_mks
     def get_pulse_k(self, pulse_instance, axis = None):
         """ Return vector of angular wavenumbers (m^-1) for the pulse_instance's 
             frequency grid inside the crystal """
-- 
2.43.0


From 7cd36c73828ff2a7016d41016b435675d31a8695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 19/47] fix: PPLN.set_pp accepts the number
 calculate_poling_period returns

---
 src/pynlo/media/crystals/XTAL_PPLN.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynlo/media/crystals/XTAL_PPLN.py b/src/pynlo/media/crystals/XTAL_PPLN.py
index e53d23c..2f1702a 100644
--- a/src/pynlo/media/crystals/XTAL_PPLN.py
+++ b/src/pynlo/media/crystals/XTAL_PPLN.py
@@ -112,6 +112,8 @@ class PPLN(Crystal):
     def set_pp(self, p) :
         if p.__class__ is tuple:
             self.pp = lambda x: p[0]
+        elif np.isscalar(p):
+            self.pp = lambda x: p
         else:
             self.pp = lambda x: p(x)
     def set_T(self, T_degC):
-- 
2.43.0


From 5a3493a69b8c12276638b3ac91019ff1df2846de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 20/47] fix: crystal dispersion parameter D has the standard
 sign

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index b115d18..a089f95 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -102,7 +102,7 @@ class Crystal:
             standard photonic engineering units ps/nm/km"""        
         fn = lambda x: self.n(x, axis)
         d2n_dl2 = misc.derivative(fn, wavelengths_nm, dx = 0.1, n = 2, order = 11)
-        D1      = (wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
+        D1      = -(wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
         D       = D1 * 1.0e12
         return D    
     def calculate_D_fs_um_mm(self, wavelengths_nm, axis = None):
-- 
2.43.0


From 3896d940076248d6c81de17769c9098fe6759ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 21/47] fix: modules importing the Python 2 exceptions module
 are importable

---
 src/pynlo/interactions/ThreeWaveMixing/field_classes.py | 5 ++---
 src/pynlo/media/crystals/XTAL_AgGaS.py                  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
index c303d44..c95fc37 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
@@ -25,7 +25,6 @@ from __future__ import division
 from __future__ import print_function
 
 import numpy as np
-import exceptions
 
 PUMP = 0
 SGNL = 1
@@ -49,10 +48,10 @@ class beam_parameters:
         """ calculate overlap integral between fields A and B. A & B must be
         integers between 0-2 (0 = pump, 1 = signal, 3 = idler.)"""
         if (type(A) is not int) or (type(B) is not int):
-            e = exceptions.TypeError('A & B must both be integers.')
+            e = TypeError('A & B must both be integers.')
             raise e
         if A < 0 or A>3 or B<0 or B>3:
-            e = exceptions.ValueError('A & B must be in range [0,3].')
+            e = ValueError('A & B must be in range [0,3].')
             raise e
         return (self.waists[A]+self.waists[B]) / 2.0
         
diff --git a/src/pynlo/media/crystals/XTAL_AgGaS.py b/src/pynlo/media/crystals/XTAL_AgGaS.py
index 04d8b2f..26d1bf1 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaS.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaS.py
@@ -25,7 +25,6 @@ from __future__ import print_function
 
 import numpy as np
 from pynlo.media.crystals.CrystalContainer import Crystal
-import exceptions 
 
 class AgGaSe2(Crystal):
     def __init__(self, theta = 0.0, **params):
@@ -97,7 +96,7 @@ class AgGaSe2(Crystal):
             return no
         elif axis == 'e':
             return ne
-        raise exceptions.ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
+        raise ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
     def phasematch(self, pump_wl_nm, sgnl_wl_nm, idlr_wl_nm, return_wavelength = False):
         """ Phase match mixing between pump (aligned to a mix of ne and no) and
             signal and idler (aligned to ordinary axis.)"""
@@ -134,7 +133,7 @@ class AgGaSe2(Crystal):
         if x < 0:
             x = ( -b - np.sqrt(b**2-4*a*c) )/ (2.0  * a)
         if np.isnan(np.arccos(x)) :
-            raise exceptions.AttributeError('No phase matching condition.')
+            raise AttributeError('No phase matching condition.')
         theta = np.arccos(x)
         print('Angle set to ',360*theta / (2.0*np.pi) )
         if RET_WL and return_wavelength:
-- 
2.43.0


From ab8589f21427f5f8c6f465ee931ad701d7c96f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 22/47] fix: ODE dense output saves the starting point, not the
 second step

---
 src/pynlo/util/ode_solve/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index c43ea42..ba8777d 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -110,7 +110,7 @@ class Output:
         if not self.dense:
             e = AttributeError('Dense output is not set in Output!')
             raise e
-        if nstp == 1:
+        if nstp == -1:
             self.save(x,y)
             self.xout += self.dxout
         else:
-- 
2.43.0


From 662ef1d01bb83cf1c90e2f5b0c9b7e46ffcdb540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 23/47] fix: ODE Output without save points no longer crashes

---
 src/pynlo/util/ode_solve/steppers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index ba8777d..3865664 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -94,11 +94,11 @@ class Output:
         self.xsave[self.count]      = xout
         self.count += 1
     def save(self, x, y):
+        if self.kmax <= 0:
+            return
         if self.ysave.dtype != y.dtype:            
             errmsg = 'Integrand returns ',str(y.dtype),' but workspaces are initialized to ',str(self.ysave.dtype),'!'
             raise TypeError(errmsg)
-        if self.kmax <= 0:
-            return
         if self.count == self.kmax:
             self.resize()
         self.ysave[self.count, :]   = y
-- 
2.43.0


From a33ad5385e3524060ea90f35967631287d7e24ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 24/47] fix: ODE error estimate handles an exactly zero error

---
 src/pynlo/util/ode_solve/dopr853.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 0c68a69..0e5304d 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -170,7 +170,7 @@ class StepperDopr853(StepperBase):
         err2 = np.sum( pow(np.abs(self.yerr )/sk, 2) )
         err1 = np.sum( pow(np.abs(self.yerr2)/sk, 2) )
         deno = err1 + 0.01 * err2
-        if deno < 0.0:
+        if deno <= 0.0:
             deno = 1.0
         return abs(abs(h) * np.abs(err1) * np.sqrt(1.0 / (deno*self.n)))
         
\ No newline at end of file
-- 
2.43.0


From cafa06e1165d2cd93e61d421939178c280f4fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 25/47] fix: each ODE stepper has its own step-size controller

---
 src/pynlo/util/ode_solve/dopr853.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 0e5304d..7625b30 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -32,9 +32,10 @@ class StepperDopr853(StepperBase):
     k2= None;k3= None;k4= None; k5= None;k6= None;k7= None;k8= None;k9= None;k10 = None
     rcont1= None;rcont2= None;rcont3= None;rcont4= None;rcont5= None;rcont6= None
     rcont7= None;rcont8 = None
-    con = Controller()
+    con = None
     def __init__(self, yy, dydxx, xx, atoll, rtoll, dens):
         StepperBase.__init__(self, yy,dydxx, xx, atoll, rtoll, dens)
+        self.con    = Controller()
         self.yerr2  = self.gen_array()
         self.k2     = self.gen_array()
         self.k3     = self.gen_array()
-- 
2.43.0


From f052bb1f1effe5ccc48f2ea4e1026ae484a422ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 26/47] fix: process_stepper_output leaves the solver output
 unchanged

---
 src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index f1bcdaa..6245660 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -466,9 +466,9 @@ class dfg_problem:
         """
         npoints = self.veclength
         
-        pump_out = solver_out.ysave[0:solver_out.count, 0        :   npoints]
-        sgnl_out = solver_out.ysave[0:solver_out.count, npoints  : 2*npoints]
-        idlr_out = solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints]
+        pump_out = solver_out.ysave[0:solver_out.count, 0        :   npoints].copy()
+        sgnl_out = solver_out.ysave[0:solver_out.count, npoints  : 2*npoints].copy()
+        idlr_out = solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints].copy()
         zs       = solver_out.xsave[0:solver_out.count]
         print ('Pulse velocity is ~ '+str(self.approx_pulse_speed*1e-12)+'mm/fs' )
         print('ks: '+str(self.k_p_0)+' '+str(self.k_s_0)+' '+str(self.k_i_0))
-- 
2.43.0


From 66fdd2757106af5d31c19ee36573c7b75641c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 27/47] fix: DFGWriter.add_run works with current Python and
 PyTables

---
 .../ThreeWaveMixing/multi_run_rw.py           | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 98fa86f..6d282cc 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -107,47 +107,47 @@ class DFGWriter:
             
     def add_run(self,integrand, odesolver, param):
         grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
-        npts           = odesolver.nvar / 3
-        count          = odesolver.out.nsave
+        npts           = odesolver.nvar // 3
+        count          = odesolver.out.count
         
         # Store pump, signal, idler fields        
         atom = tables.Atom.from_dtype(odesolver.out.ysave[0:count, 0 : npts].T.dtype)
         data_shape = odesolver.out.ysave[0:count, 0 : npts].T.shape
-        pump_data = self.tables_file.createCArray(grp, 'pump', atom, data_shape)
+        pump_data = self.tables_file.create_carray(grp, 'pump', atom, data_shape)
         pump_data[:] = odesolver.out.ysave[0:count, 0 : npts].T
-        sgnl_data = self.tables_file.createCArray(grp, 'sgnl', atom, data_shape)      
+        sgnl_data = self.tables_file.create_carray(grp, 'sgnl', atom, data_shape)      
         sgnl_data[:] = odesolver.out.ysave[0:count, npts : 2 * npts].T
-        idlr_data = self.tables_file.createCArray(grp, 'idlr', atom, data_shape)
+        idlr_data = self.tables_file.create_carray(grp, 'idlr', atom, data_shape)
         idlr_data[:] = odesolver.out.ysave[0:count, 2*npts : 3 * npts].T
         
         # By the design of the pulse class, the three things we need are center
         # wavelength, time window, and rep rate (N points is set by the array sizes)
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_twind = self.tables_file.createCArray(grp, 'pump_Twind', atom, data_shape)
+        pump_twind = self.tables_file.create_carray(grp, 'pump_Twind', atom, data_shape)
         pump_twind[:] = integrand.pump.time_window_ps
-        sgnl_twind = self.tables_file.createCArray(grp, 'sgnl_Twind', atom, data_shape)
+        sgnl_twind = self.tables_file.create_carray(grp, 'sgnl_Twind', atom, data_shape)
         sgnl_twind[:] = integrand.sgnl.time_window_ps
-        idlr_twind = self.tables_file.createCArray(grp, 'idlr_Twind', atom, data_shape)
+        idlr_twind = self.tables_file.create_carray(grp, 'idlr_Twind', atom, data_shape)
         idlr_twind[:] = integrand.idlr.time_window_ps
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_wlc = self.tables_file.createCArray(grp, 'pump_center_nm', atom, data_shape)
+        pump_wlc = self.tables_file.create_carray(grp, 'pump_center_nm', atom, data_shape)
         pump_wlc[:] = integrand.pump.center_wavelength_nm
-        sgnl_wlc = self.tables_file.createCArray(grp, 'sgnl_center_nm', atom, data_shape)
+        sgnl_wlc = self.tables_file.create_carray(grp, 'sgnl_center_nm', atom, data_shape)
         sgnl_wlc[:] = integrand.sgnl.center_wavelength_nm
-        idlr_wlc = self.tables_file.createCArray(grp, 'idlr_center_nm', atom, data_shape)
+        idlr_wlc = self.tables_file.create_carray(grp, 'idlr_center_nm', atom, data_shape)
         idlr_wlc[:] = integrand.idlr.center_wavelength_nm
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        fr = self.tables_file.createCArray(grp, 'frep_Hz', atom, data_shape)
+        fr = self.tables_file.create_carray(grp, 'frep_Hz', atom, data_shape)
         fr[:] = integrand.pump.frep_Hz
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        para = self.tables_file.createCArray(grp, 'param', atom, data_shape)
+        para = self.tables_file.create_carray(grp, 'param', atom, data_shape)
         para[:] = param
         
         self.tables_file.flush()
-- 
2.43.0


From 1239f957414a01f5591de90cee39110d80514373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 28/47] fix: calc_compressor_dnphi_domega_n scales every order
 to fs^(n+1)

---
 src/pynlo/devices/grating_compressor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 8e85320..5403f2e 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -150,8 +150,9 @@ class TreacyCompressor:
         dphidw = fn(ws)        
         y = signal.savgol_filter(dphidw, window_length = 11,
                              polyorder = 7, deriv = dispersion_order)
-        dw = (ws[1] - ws[0])*10**(-15*(1+dispersion_order))
-        return y[50]/(dw**dispersion_order)
+        dw = ws[1] - ws[0]
+        # scale from s^(n+1) to fs^(n+1)
+        return y[50]/(dw**dispersion_order) * 10.0**(15*(1+dispersion_order))
     
     
     def apply_phase_to_pulse(self, grating_separation_meters, pulse):
-- 
2.43.0


From 819724a7cfafb8597093f456a2b8151ab49fb4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 29/47] fix: calc_compressor_HOD step is large enough for
 orders above 3

---
 src/pynlo/devices/grating_compressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 5403f2e..1b16fac 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -134,8 +134,8 @@ class TreacyCompressor:
         return misc.derivative(fn, 
                                       w_of_l(wavelength_nm),
                                       n     = dispersion_order - 2,
-                                      dx    = 2.0*np.pi*100.0e6, # Use dx = 100 MHz
-                                      order = 101 ) # Why not use 101's order?
+                                      dx    = 2.0*np.pi*0.5e12, # Use dx = 0.5 THz
+                                      order = 11 )
     
     
     def calc_compressor_dnphi_domega_n(self, wavelength_nm, grating_separation_meters, dispersion_order):
-- 
2.43.0


From b935b91a804e1592d6fea3258e186aa97a73fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:00 +0000
Subject: [PATCH 30/47] fix: coherence of weak spectral components does not
 underflow

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 0ec1d74..72a90f5 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -600,7 +600,7 @@ class SSFM:
             for n2, (y, E2, AT, pulsein, pulseout) in enumerate(results):
                 if n1 == n2: continue # don't compare the same trial
 
-                g12 = np.conj(E1)*E2/np.sqrt(np.abs(E1)**2 * np.abs(E2)**2)
+                g12 = np.conj(E1)*E2/(np.abs(E1)*np.abs(E2))
                 if 'g12_stack' not in locals():
                     g12_stack = g12
                 else:
-- 
2.43.0


From e8575f38b6ce1106f397e3b0caaeb92402a68bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:35 +0000
Subject: [PATCH 31/47] fix: SSFM rejects a trial step that overflowed

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 72a90f5..fc0a1a9 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -323,6 +323,9 @@ class SSFM:
             self.Af[:] = self.Advance(self.Af,dz,direction)
             #delta = |Af - Ac| / |Af| 
             delta = self.CalculateLocalError()
+            if not np.isfinite(delta) and np.all(np.isfinite(self.A)):
+                # The trial step overflowed: it is far too large
+                delta = np.inf
 
             old_dz = dz
             new_dz = dz
-- 
2.43.0


From 01455c629bfa653799f6981cce7dd6aada336134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 32/47] fix: ODE dense output does not store the end point
 twice

---
 src/pynlo/util/ode_solve/steppers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index 3865664..00d883c 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -112,11 +112,12 @@ class Output:
             raise e
         if nstp == -1:
             self.save(x,y)
-            self.xout += self.dxout
+            self.xout = self.x1 + self.count*self.dxout
         else:
             while (x-self.xout)*(self.x2-self.x1) > 0.0:
                 self.save_dense(s, self.xout, h)
-                self.xout += self.dxout
+                # Not accumulated, so that the last point is x2 itself
+                self.xout = self.x1 + self.count*self.dxout
         
         
 
@@ -227,7 +228,7 @@ class ODEint:
                 self.ystart[:] = self.s.y
                 if self.out.kmax > 0 and\
                         abs(self.out.xsave[self.out.count-1]-self.x2) >\
-                        100.0*abs(self.x2)*self.EPS:
+                        100.0*max(abs(self.x1), abs(self.x2))*self.EPS:
                     self.out.save(self.s.x, self.s.y)
                 return
             if abs(self.s.hnext) <= self.hmin:
-- 
2.43.0


From 1a00f22a628e2d1e4d9b22ee3766ce77e5d1ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:38 +0000
Subject: [PATCH 33/47] fix: DFGWriter replaces existing data of a parameter
 that has runs

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 6d282cc..2ed4d08 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -102,7 +102,7 @@ class DFGWriter:
             self.root = self.tables_file.create_group('/', param_name)
         except tables.NodeError:
             print ('Parameter "'+param_name+'" already in table; deleting existing data.')
-            self.tables_file.remove_node('/', param_name)
+            self.tables_file.remove_node('/', param_name, recursive = True)
             self.root = self.tables_file.create_group('/', param_name)
             
     def add_run(self,integrand, odesolver, param):
-- 
2.43.0


From 865fe4f1e54e0aee0dbcb7aef653c2b31b1328be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 34/47] fix: ODE step that overflowed is retried with a smaller
 step

---
 src/pynlo/util/ode_solve/dopr853_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853_controller.py b/src/pynlo/util/ode_solve/dopr853_controller.py
index 77d648f..bb8f847 100644
--- a/src/pynlo/util/ode_solve/dopr853_controller.py
+++ b/src/pynlo/util/ode_solve/dopr853_controller.py
@@ -62,7 +62,7 @@ class Controller:
            return (True, h)
        else:           
 
-           scale = max(safe*np.power(err, -alpha), minscale)
+           scale = max(minscale, safe*np.power(err, -alpha)) # minscale if err is NaN
            h *= scale
            if DEBUG:
                print ('Reject, ',h)
-- 
2.43.0


From 02d45a38793b0155f047a12a99d2aa174bb4b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:35 +0000
Subject: [PATCH 35/47] fix: split-step method of SSFM applies the whole linear
 step, not half of it

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index fc0a1a9..27d9f60 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -381,12 +381,10 @@ class SSFM:
  
     def Advance(self,A,dz,direction):
         if self.method == SSFM.METHOD_SSFM:
-            if direction==1:
-                A[:] = self.LinearStep(A,dz,direction)
-                return np.exp(dz*direction*self.NonlinearOperator(A))*A
-            else:
-                A[:] = np.exp(dz*direction*self.NonlinearOperator(A))*A
-                return self.LinearStep(A,dz,direction)
+            # Symmetrized split-step: LinearStep advances by half of dz
+            A[:] = self.LinearStep(A,dz,direction)
+            A[:] = np.exp(dz*direction*self.NonlinearOperator(A))*A
+            return self.LinearStep(A,dz,direction)
         elif self.method == SSFM.METHOD_RK4IP:
             return self.RK4IP(A,dz,direction)
 
-- 
2.43.0


From de113993c09e830a3f4c8123eb2de8749aafb744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:40 +0000
Subject: [PATCH 36/47] fix: ODE Output starts empty when used for another
 integration

---
 src/pynlo/util/ode_solve/steppers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index 00d883c..71537d0 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -63,6 +63,7 @@ class Output:
             """
         self.nvar = neqn
         self.dtype = dtype
+        self.count = 0
         if self.kmax == -1:
             return
         self.ysave = np.zeros((self.kmax, self.nvar), dtype = dtype)
-- 
2.43.0


From e40c7ba3389acdc255e764697fe76cc78829951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:09 +0000
Subject: [PATCH 37/47] fix: the requested output power is reached for any
 length of gain fiber

---
 src/pynlo/media/fibers/fiber.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 88b1ab3..4d89d6c 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -327,6 +327,12 @@ class FiberInstance:
                     f = scipy.interpolate.interp1d(self.c_mks/x[::-1],y[::-1],kind ='cubic',
                                  bounds_error=False,fill_value=0)
                     gain_spec = f(pulse.W_mks/ (2*np.pi))
+                    # Only the shape of the spectrum is used: in units of the
+                    # gain of the whole fiber the search is well scaled
+                    # whatever the length and the units of the table.
+                    total_gain = np.max(np.abs(gain_spec)) * self.length
+                    if total_gain > 0:
+                        gain_spec = gain_spec / total_gain
 
                     g = lambda k: np.abs(output_power - pulse.frep_Hz * pulse.dT_mks*
                                         np.trapz(np.abs(
-- 
2.43.0


From 8d52909e711ec38c65822329662d5bbd2730e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:55 +0000
Subject: [PATCH 38/47] fix: SSFM propagates grids with an odd number of points

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 27d9f60..164ba64 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -763,9 +763,10 @@ class SSFM:
         else:
             return np.linalg.norm(self.Af-self.Ac)
     def conditional_ifftshift(self, x):
+        # A shifted copy: x stays in its order. On a grid with an odd number of
+        # points a second shift would not undo the first.
         if global_variables.PRE_FFTSHIFT:
-            x[:] = ifftshift(x)
-            return x
+            return ifftshift(x)
         else:
             return x
     def conditional_fftshift(self, x):
-- 
2.43.0


From e3e3916f37a41c455d6a4958627e40314aa5b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:45 +0000
Subject: [PATCH 39/47] fix: a CW line below the frequency grid is refused
 instead of wrapping to its other end

---
 src/pynlo/light/DerivedPulses.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 588d441..8653b71 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -213,7 +213,11 @@ class CWPulse(Pulse):
         
             self.set_center_wavelength_nm(center_nm)
             aws = np.zeros((self.NPTS, ))
-            aws[int(self.NPTS/2.0) + int(n_offset)  ] = 1.0 *np.sqrt(avg_power)
+            line_idx = int(self.NPTS/2.0) + int(n_offset)
+            # A negative index would wrap around to the other end of the grid
+            if not 0 <= line_idx < self.NPTS:
+                raise IndexError('CW line is outside of the frequency grid.')
+            aws[line_idx] = 1.0 *np.sqrt(avg_power)
             self.set_AW(aws)
         
     def gen_OSA(self, time_window_ps, center_wavelength_nm, power, 
-- 
2.43.0


From 647f9e8f591b6e629e52f6c67a15a74d30bb07de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:23 +0000
Subject: [PATCH 40/47] fix: a refused expansion of the time window leaves the
 pulse as it was

---
 src/pynlo/light/PulseBase.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 6503df3..e5c9c95 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -755,21 +755,23 @@ class Pulse:
         num_new_pts = self.NPTS*(2**factor_log2 - 1)
         AT_current = self.AT
         
-        self.set_NPTS(self.NPTS * 2**factor_log2)        
-        self.set_time_window_ps(self.time_window_ps * 2**factor_log2)
-        self._AW = None # Force generation of new array
         if new_pts_loc == "before":
-            self.set_AT(np.hstack( (np.zeros(num_new_pts,), AT_current) ))
+            AT_new = np.hstack( (np.zeros(num_new_pts,), AT_current) )
         elif new_pts_loc == "after":
-            self.set_AT(np.hstack( (AT_current, np.zeros(num_new_pts,)) ))            
+            AT_new = np.hstack( (AT_current, np.zeros(num_new_pts,)) )
         elif new_pts_loc == "even":
             pts_before = int(np.floor(num_new_pts * 0.5))
             pts_after  = num_new_pts - pts_before
-            self.set_AT(np.hstack( (np.zeros(pts_before,), 
-                                    AT_current, 
-                                    np.zeros(pts_after,)) ))            
+            AT_new = np.hstack( (np.zeros(pts_before,), 
+                                 AT_current, 
+                                 np.zeros(pts_after,)) )
         else:
             raise ValueError("new_pts_loc must be one of 'before', 'after', 'even'")
+        # The pulse is changed only once the request is known to be valid
+        self.set_NPTS(self.NPTS * 2**factor_log2)        
+        self.set_time_window_ps(self.time_window_ps * 2**factor_log2)
+        self._AW = None # Force generation of new array
+        self.set_AT(AT_new)
     def rotate_spectrum_to_new_center_wl(self, new_center_wl_nm):
         """Change center wavelength of pulse by rotating the electric field in
             the frequency domain. Designed for creating multiple pulses with same
-- 
2.43.0


From bf293f04a63c1e0428db05a50dc581629580de0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:24 +0000
Subject: [PATCH 41/47] fix: a refused load from the fiber database leaves the
 fiber's name as it was

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 4d89d6c..16ae323 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -70,8 +70,8 @@ class FiberInstance:
         
     def load_from_db(self, length, fibertype, poly_order = 2):
         """This loads a fiber from the database. """
-        self.fibertype = fibertype
         self.fiberspecs = self.fiberloader.get_fiber(fibertype)
+        self.fibertype = fibertype
         self.length = length
         self.betas = np.array([0])
         self.gamma = self.fiberspecs["gamma"]
-- 
2.43.0


From 1650d01bb306cc5d791080eeeb7ba8bd8620accd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:24 +0000
Subject: [PATCH 42/47] fix: runs read back from a file have their own
 repetition rate

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 2ed4d08..e291320 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -53,6 +53,7 @@ class DFGReader:
             z_num = -1
             
         run = self.root_name+'/run'+str(run_num)
+        frep_Hz = self.tables_file.get_node(run+'/frep_Hz')[0]
         
         # Read in and generate pump pulse
         pump_field  = self.tables_file.get_node(run+'/pump')[:,z_num]
@@ -63,7 +64,7 @@ class DFGReader:
         p.set_center_wavelength_nm(pump_center)
         p.set_time_window_ps(pump_Twind)
         p.set_AW(pump_field)
-        p.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        p.set_frep_MHz(frep_Hz * 1.0e-6)
         
         # Read in and generate signal pulse
         sgnl_field  = self.tables_file.get_node(run+'/sgnl')[:,z_num]
@@ -74,7 +75,7 @@ class DFGReader:
         s.set_center_wavelength_nm(sgnl_center)
         s.set_time_window_ps(sgnl_Twind)
         s.set_AW(sgnl_field)
-        s.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        s.set_frep_MHz(frep_Hz * 1.0e-6)
 
         # Read in and generate idler pulse
         idlr_field  = self.tables_file.get_node(run+'/idlr')[:,z_num]
@@ -85,7 +86,7 @@ class DFGReader:
         i.set_center_wavelength_nm(idlr_center)
         i.set_time_window_ps(idlr_Twind)
         i.set_AW(idlr_field)
-        i.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        i.set_frep_MHz(frep_Hz * 1.0e-6)
         
         return (p, s, i)
         
-- 
2.43.0


From 70188645a5e9ee74bf34d567a6664ca029fd077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:24 +0000
Subject: [PATCH 43/47] fix: the radius of curvature at the focus is infinite,
 not NaN

---
 src/pynlo/light/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/beam.py b/src/pynlo/light/beam.py
index 7423dc7..dedc738 100644
--- a/src/pynlo/light/beam.py
+++ b/src/pynlo/light/beam.py
@@ -75,7 +75,7 @@ class OneDBeam:
         """ Calculate beam curvature. :
             R(z) = z * [ 1 +  (z_R/ z)**2 ]"""
         z_r = self.calculate_zR(n_s)
-        return z * (1 + (z_r/z)**2)
+        return z + z_r**2/z # infinite at the focus
         
     def calculate_gouy_phase(self, z, n_s):
         """ Return the Gouy phase shift due to focusing a distance z in a crystal,
-- 
2.43.0


From c83d57e70d11778eb0b671690ea7f17ec9dc85a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:24 +0000
Subject: [PATCH 44/47] fix: the waist for best overlap of beams with equal
 wave numbers is not NaN

---
 src/pynlo/light/beam.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/beam.py b/src/pynlo/light/beam.py
index dedc738..41b7166 100644
--- a/src/pynlo/light/beam.py
+++ b/src/pynlo/light/beam.py
@@ -155,9 +155,11 @@ class OneDBeam:
         k1 = self.get_k_in_crystal(this_pulse, crystal_instance)
         k2 = othr_beam.get_k_in_crystal(othr_pulse, crystal_instance)
 
-        obj_fn = lambda zr1: -1.0*np.sum((4*k1*k2*zr1*abs(zr2) *\
-            np.arctan( ((k1 - k2)*L)/(k2*zr1 + k1*abs(zr2)))/\
-            ((k1 - k2)*(k2*zr1 + k1*abs(zr2)))))
+        # Where the wave numbers are equal the overlap does not depend on z
+        arctan_dk = lambda b: np.where(k1 == k2, L/b, np.arctan((k1 - k2)*L/b) /\
+            np.where(k1 == k2, 1.0, k1 - k2))
+        obj_fn = lambda zr1: -1.0*np.sum(4*k1*k2*zr1*abs(zr2) *\
+            arctan_dk(k2*zr1 + k1*abs(zr2))/(k2*zr1 + k1*abs(zr2)))
         
         result = optimize.minimize(obj_fn, zr2,  method = 'Powell')
         # From w0**2 = b lambda/ 2 pi n:
-- 
2.43.0


From ee8267b4cd8641bc2abb383f771d4407314cbc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:24 +0000
Subject: [PATCH 45/47] fix: single wavelengths without a first order are
 coerced like arrays of them

---
 src/pynlo/devices/grating_compressor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 1b16fac..fd56ffc 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -78,10 +78,7 @@ class TreacyCompressor:
         if np.any((l/self.d  - np.sin(self.g))< -1) or np.any((l/self.d  - np.sin(self.g)) > 1):
             print( "Bad value for argument of arcsin: ",\
                 l/self.d  - np.sin(self.g),'. You are probably asking for diffraction of an impossible color (this wavelength is ',l*1e9,'nm. Coercing to [-1,1].' )
-        val = l/self.d  - np.sin(self.g)
-        if type(val) == np.ndarray:
-            val[val>1] = 1
-            val[val<-1] = -1
+        val = np.clip(l/self.d  - np.sin(self.g), -1, 1)
 
         alpha = np.arcsin(val )
         if display_angle:
-- 
2.43.0


From 01ebb1155f4c63eb4b6d27c149f821dbb272ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:24 +0000
Subject: [PATCH 46/47] fix: propagating a fiber of zero length does not zero
 the solver's step size

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 164ba64..604dca0 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -311,6 +311,9 @@ class SSFM:
         force_last_dz = False
         factor = 2**(1.0/self.eta)
 
+        if dist <= 0.0:
+            return # keep the step size for the next fiber
+
         if (2.0*dz > dist):
             dz = dist/2.0
 
-- 
2.43.0


From 57b690d310d0f84a082f7885b0c57dcdea174d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:15 +0000
Subject: [PATCH 47/47] fix: cloning a pulse from itself or from one without a
 field loses the receiver's field

---
 src/pynlo/light/PulseBase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index e5c9c95..d8f634a 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -809,12 +809,14 @@ class Pulse:
         self.set_AW(AW_new)        
     def clone_pulse(self, p):
         '''Copy all parameters of pulse_instance into this one'''
+        # Read before this pulse is changed: p may be this pulse, or refuse
+        AT = p.AT
         self._AW = None # Force generation of new array
         self.set_NPTS(p.NPTS)
         self.set_time_window_ps(p.time_window_ps)
         self.set_center_wavelength_nm(p.center_wavelength_nm)
         self._frep_MHz = p.frep_MHz
-        self.set_AT(p.AT)
+        self.set_AT(AT)
     def get_pulse_dict(self):
         d = {"NPTS" : self.NPTS,
              "time_window_ps" : self.time_window_ps,
-- 
2.43.0

