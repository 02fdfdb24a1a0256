From dd4fa09153bb2e5caefada13ac12aaf88f59ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 01/24] fix: measure() accepts omitted sensor voltages when
 sensor voltage limits are set

---
 simcats/_simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 2308ef1..9bcddd9 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -183,13 +183,15 @@ class Simulation:
             )
 
         if (
-                self.__volt_limits_sensor_g1 is not None
+                volt_sensor_g1 is not None
+                and self.__volt_limits_sensor_g1 is not None
                 and (
                 volt_sensor_g1 < self.__volt_limits_sensor_g1[0]
                 or volt_sensor_g1 > self.__volt_limits_sensor_g1[1]
         )
                 or (
-                self.__volt_limits_sensor_g2 is not None
+                volt_sensor_g2 is not None
+                and self.__volt_limits_sensor_g2 is not None
                 and (
                         volt_sensor_g2 < self.__volt_limits_sensor_g2[0]
                         or volt_sensor_g2 > self.__volt_limits_sensor_g2[1]
-- 
2.43.0


From 0acfa89f147c1c1ce0d48a79fe140b7c89b0fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 02/24] fix: measure_sensor_scan() handles int and one-entry
 resolutions with and without plunger voltages

---
 simcats/_simulation.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 9bcddd9..49da6b5 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -465,11 +465,14 @@ class Simulation:
                 f"a fixed voltage for the corresponding gate, to perform a single gate sweep."
             )
 
+        # shape of the scan: 1D for a single resolution (int or one entry), 2D with g2 along the rows for two
+        if type(resolution) == int:
+            scan_shape = (resolution,)
+        else:
+            scan_shape = tuple(int(r) for r in resolution[::-1])
+
         if self.ideal_csd_config is None or volt_g1 is None or volt_g2 is None:
-            if type(resolution) == int:
-                occupations = np.zeros((resolution, 2))
-            else:
-                occupations = np.zeros((resolution[1], resolution[0], 2))
+            occupations = np.zeros(scan_shape + (2,))
             undistorted_occupations = deepcopy(occupations)
         else:
             # setup clean data function pointer
@@ -480,17 +483,9 @@ class Simulation:
                 volt_limits_g1=(volt_g1, volt_g1), volt_limits_g2=(volt_g2, volt_g2), resolution=(1)
             )
 
-            if len(resolution) == 1:
-                resolution = int(resolution[0])
-
-            if type(resolution) == int:
-                occupations = np.ones((resolution, 2))
-                occupations[:, 0] = occupations[:, 0] * occupations_csd[0, 0]
-                occupations[:, 1] = occupations[:, 1] * occupations_csd[0, 1]
-            else:
-                occupations = np.ones((resolution[1], resolution[0], 2))
-                occupations[:, :, 0] = occupations[:,:,0] * occupations_csd[0, 0]
-                occupations[:, :, 1] = occupations[:,:,1] * occupations_csd[0, 1]
+            occupations = np.ones(scan_shape + (2,))
+            occupations[..., 0] = occupations[..., 0] * occupations_csd[0, 0]
+            occupations[..., 1] = occupations[..., 1] * occupations_csd[0, 1]
 
             undistorted_occupations = deepcopy(occupations)
 
-- 
2.43.0


From 8764d6f7e80aeb4365b1df93ebf1d257d00b525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 03/24] fix: pass the sensor gate 2 sweep range to response
 distortions of sensor scans

---
 simcats/_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 49da6b5..2ab0bb3 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -537,7 +537,7 @@ class Simulation:
         if self.__sensor_response_distortions is not None:
             for i in self.__sensor_response_distortions:
                 scan = i.noise_function(
-                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g1
+                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g2
                 )
 
         # create a dictionary containing all the metadata
-- 
2.43.0


From 7d40fd7adac6fcc2b309c9679fb907c457a0b9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 04/24] fix: voltage limits given as a list are validated
 instead of raising AttributeError

---
 simcats/_simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 2ab0bb3..dd2f823 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -581,7 +581,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and volt_limits_g1.size == 2)
+                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and np.size(volt_limits_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g1 configuration is not supported. Must be either None or "
@@ -610,7 +610,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and volt_limits_g2.size == 2)
+                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and np.size(volt_limits_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g2 configuration is not supported. Must be either None or "
@@ -640,7 +640,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g1 is None or (
-                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and volt_limits_sensor_g1.size == 2)
+                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and np.size(volt_limits_sensor_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g1 configuration is not supported. Must be either None or "
@@ -670,7 +670,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g2 is None or (
-                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and volt_limits_sensor_g2.size == 2)
+                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and np.size(volt_limits_sensor_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g2 configuration is not supported. Must be either None or "
-- 
2.43.0


From 174add52c7889de6a8e3f3ba9d7b089a4e456062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 05/24] fix: barrier offsets use the occupation of dot 2 and
 the voltage of sensor gate 2

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 03652aa..6259465 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -613,14 +613,14 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             voltages = np.array([self._volt_limits_g1[0], self._volt_limits_g2[0]])
             gate_offset = np.dot(self.alpha_gate[1:], voltages)
         else:
-            voltages = np.array([self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g1[0]])
+            voltages = np.array([self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g2[0]])
             gate_offset = np.dot(self.alpha_sensor_gate[1:], voltages)
 
         # Calculate potential offsets for both barriers
         offset1 = (gate_offset[0] +
                    self.offset_mu_sens[1] +
                    self.alpha_dot[1, 0] * occ[0] +
-                   self.alpha_dot[1, 1] * occ[0])
+                   self.alpha_dot[1, 1] * occ[1])
 
         offset2 = (gate_offset[1] +
                    self.offset_mu_sens[2] +
-- 
2.43.0


From be8dc208b3da5c461eb348629eff4d04bb45b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 06/24] fix: sensor scan labels evaluate the fully conductive
 point at the voltage of gate 2

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 6259465..090ce56 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -830,7 +830,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         fully_conductive_potential = self.sensor_potential(
             occupations=np.array((occ,)),
             volt_limits_g1=volt_limits_g1,
-            volt_limits_g2=volt_limits_g1,
+            volt_limits_g2=volt_limits_g2,
             volt_limits_sensor_g1=fully_conductive_point[0],
             volt_limits_sensor_g2=fully_conductive_point[1],
         )
-- 
2.43.0


From ba406ee420c98b27e87f0bf255894e7cb54a75df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 07/24] fix: sensor scan labels accept integer plunger voltages

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 090ce56..047bf98 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -818,8 +818,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         apply_deformations = len(self.sensor_peak_deformations) != 0
 
-        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, float)) and
-                (volt_limits_g2 is None or isinstance(volt_limits_g2, float))):
+        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, numbers.Real)) and
+                (volt_limits_g2 is None or isinstance(volt_limits_g2, numbers.Real))):
             raise ValueError("The volt limits have to be fixed values or None when sensor scan labels are generated!")
 
         fully_conductive_point = self._calc_point_from_barrier_potentials(
-- 
2.43.0


From 4158c2c036d33d61b1b3061c9b8ce234be1d94aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 08/24] fix: sensor scan labels use the deformation that
 belongs to the peak, also for unsorted peak lists

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 047bf98..477a93d 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -881,10 +881,10 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         for idx, peak, peak_id in reversed(list(peaks_sorted_with_id)):
             distorted_pot: np.ndarray
-            if idx in self.sensor_peak_deformations.keys():
-                deformation = self.sensor_peak_deformations[idx]
+            if peak_id in self.sensor_peak_deformations.keys():
+                deformation = self.sensor_peak_deformations[peak_id]
                 distorted_pot = sensor_pot + (
-                        peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=self.sensor_peak_function[idx].mu0))
+                        peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=peak.mu0))
             else:
                 distorted_pot = sensor_pot
 
-- 
2.43.0


From 1ac6c0fb60bf1eca8327ad2b097255b2908dad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 09/24] fix: the final rise no longer overwrites the voltages
 stored for the current scan

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 477a93d..5b66cc7 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -546,7 +546,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                     sensor_swept=sensor_swept
                 )
 
-                fully_conductive_potential = self.sensor_potential(
+                fully_conductive_potential = self._single_point_potential(
                     occupations=np.array((occ,)),
                     volt_limits_g1=g1_voltage,
                     volt_limits_g2=g2_voltage,
@@ -648,6 +648,20 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         return point
 
+    def _single_point_potential(self, **kwargs) -> np.ndarray:
+        """Sensor and barrier potentials for a single operating point.
+
+        In contrast to :meth:`sensor_potential`, the voltages and occupations that are stored for the current scan remain
+        unchanged.
+        """
+        state = (self._volt_limits_g1, self._volt_limits_g2, self._volt_limits_sensor_g1, self._volt_limits_sensor_g2,
+                 self._occupations)
+        try:
+            return self.sensor_potential(**kwargs)
+        finally:
+            (self._volt_limits_g1, self._volt_limits_g2, self._volt_limits_sensor_g1, self._volt_limits_sensor_g2,
+             self._occupations) = state
+
     def sensor_potential(self,
                          occupations: np.ndarray,
                          volt_limits_g1: Union[np.ndarray, float, None] = None,
-- 
2.43.0


From 5134c26453f9832d94a7eb51b5e70bafcd9649b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 10/24] fix: dot jumps of more than 255 pixels or at columns
 above 255 no longer wrap around

---
 simcats/distortions/_dot_jumps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 22b6038..bd1f32a 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -603,7 +603,7 @@ def generate_dot_jumps_blockwise(
             break
 
     noise = noise[:size]
-    noise = noise.astype("uint8")
+    noise = noise.astype(int)
     return noise
 
 
@@ -737,7 +737,7 @@ def dot_jumps_pixelwise(
 
         noise = noise[:size]
         noise = noise.reshape(original.shape)
-        noise = noise.astype("uint8")
+        noise = noise.astype(int)
 
     shifted = np.empty(original.shape)
     rows = original.shape[0]
-- 
2.43.0


From 57ec7d92b4196c8d791e341ab884f653746fed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 11/24] fix: dot jumps convert volts to pixels with the
 resolution of the jump axis

---
 simcats/distortions/_dot_jumps.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index bd1f32a..23db523 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -183,15 +183,12 @@ class OccupationDotJumps(OccupationDistortionInterface):
             except AttributeError:
                 lam = self.lam
             if self.axis == 1:  # dot jumps in x direction
-                scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-                lam *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                # x is the last axis of 2d scans, 1d scans only have one axis
+                scale *= resolution[-1 if len(occupations.shape) == 3 else 0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                lam *= resolution[-1 if len(occupations.shape) == 3 else 0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
             elif self.axis == 0:  # dot jumps in y direction
-                if len(occupations.shape) == 3:
-                    scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                else:
-                    scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             if scale < 1:
                 # smallest possible value is 1, so set to 1. As this might not be, what the user wants, warn about it
                 warnings.warn(
-- 
2.43.0


From 37d6149d705612a541448507cda2371e6687f6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 12/24] fix: dot jumps in 2D scans with both gates swept
 downwards

---
 simcats/distortions/_dot_jumps.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 23db523..6ccca18 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -229,9 +229,9 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1, :]
             if volt_limits_g1[0] > volt_limits_g1[1]:
-                sorted_occupations = occupations[:, ::-1]
+                sorted_occupations = sorted_occupations[:, ::-1]
                 if lead_transitions is not None:
-                    sorted_transitions = lead_transitions[:, ::-1]
+                    sorted_transitions = sorted_transitions[:, ::-1]
             self._noise_function_2d(
                 sorted_occupations,
                 sorted_transitions,
@@ -242,15 +242,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 lam,
                 freeze,
             )
-            # bring back into original order
-            if volt_limits_g2[0] > volt_limits_g2[1]:
-                occupations = sorted_occupations[::-1, :]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1, :]
-            if volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[:, ::-1]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[:, ::-1]
+            # the sorted arrays are views, thus the supplied arrays already contain the jumps in the original order
         return occupations, lead_transitions
 
     def _noise_function_1d(
-- 
2.43.0


From 03566926c684d3ad6176ab64ebfb14979bf49dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 13/24] fix: dot jumps generate the outside pixels at the pixel
 spacing of the jump axis

---
 simcats/distortions/_dot_jumps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 6ccca18..8ef8f8e 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -306,7 +306,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:
                 # generate the necessary part to the "left" of the CSD and fill into 2d csd
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / max(occupations.shape[0] - 1, 1)
                 for i in range(max_jump):
                     left_occupation, left_charge_transitions = generate_csd(
                         volt_limits_g1=(
@@ -332,7 +332,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                         # insert the i-th diagonal there
                         np.fill_diagonal(lead_transitions_2d, left_charge_transitions)
             if self.axis == 0:
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / max(occupations.shape[0] - 1, 1)
                 for i in range(max_jump):
                     top_occupation, top_charge_transitions = generate_csd(
                         volt_limits_g1=volt_limits_g1,
@@ -454,7 +454,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:  # jumps in x direction
                 # generate the necessary part to the "left" of the CSD and stack to CSD
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupation.shape[1]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / (occupation.shape[1] - 1)
                 left_occupation, left_charge_transitions = generate_csd(
                     volt_limits_g1=(
                         volt_limits_g1[0] - max_jump * step_size,
@@ -470,7 +470,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                     total_charge_transitions_stacked = np.hstack((left_charge_transitions, lead_transitions))
             elif self.axis == 0:  # jumps in y direction
                 # generate the necessary part to the "top" of the CSD array and stack to CSD
-                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupation.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / (occupation.shape[0] - 1)
                 top_occupation, top_charge_transitions = generate_csd(
                     volt_limits_g1=volt_limits_g1,
                     volt_limits_g2=(
-- 
2.43.0


From 3429f46a48ad134a85294d944f89b04fd3ceb258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 14/24] fix: dot jumps in 1D scans whose gates are swept in
 opposite directions

---
 simcats/distortions/_dot_jumps.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 8ef8f8e..058fab6 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -205,7 +205,11 @@ class OccupationDotJumps(OccupationDistortionInterface):
         sorted_occupations = occupations
         sorted_transitions = lead_transitions
         if len(occupations.shape) == 2:  # 1d scan
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
+            # both gates are swept along the one pixel axis, so they are only reversed together
+            limits_axis = volt_limits_g1 if self.axis == 1 else volt_limits_g2
+            sorted_limits_g1, sorted_limits_g2 = volt_limits_g1, volt_limits_g2
+            if limits_axis[0] > limits_axis[1]:
+                sorted_limits_g1, sorted_limits_g2 = volt_limits_g1[::-1], volt_limits_g2[::-1]
                 sorted_occupations = occupations[::-1]
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1]
@@ -219,10 +223,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 lam,
                 freeze,
             )
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[::-1]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1]
+            # the sorted arrays are views, thus the supplied arrays already contain the jumps in the original order
         if len(occupations.shape) == 3:  # 2d scan
             if volt_limits_g2[0] > volt_limits_g2[1]:
                 sorted_occupations = occupations[::-1, :]
-- 
2.43.0


From 328d48fb8d71c39ac61d898a3f8c6dbc0d6e33d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 15/24] fix: dot jumps along a gate with a fixed voltage no
 longer fail

---
 simcats/distortions/_dot_jumps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 058fab6..5d58ba0 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -169,6 +169,11 @@ class OccupationDotJumps(OccupationDistortionInterface):
             else:
                 self.__activated = True
 
+        # a gate with a fixed voltage (1d scans) offers no pixels at lower voltages, from which a jump could come
+        limits_axis = volt_limits_g1 if self.axis == 1 else volt_limits_g2
+        if limits_axis[0] == limits_axis[1]:
+            return occupations, lead_transitions
+
         resolution = occupations.shape[0:2]
         if freeze:
             scale = None
@@ -206,7 +211,6 @@ class OccupationDotJumps(OccupationDistortionInterface):
         sorted_transitions = lead_transitions
         if len(occupations.shape) == 2:  # 1d scan
             # both gates are swept along the one pixel axis, so they are only reversed together
-            limits_axis = volt_limits_g1 if self.axis == 1 else volt_limits_g2
             sorted_limits_g1, sorted_limits_g2 = volt_limits_g1, volt_limits_g2
             if limits_axis[0] > limits_axis[1]:
                 sorted_limits_g1, sorted_limits_g2 = volt_limits_g1[::-1], volt_limits_g2[::-1]
-- 
2.43.0


From 848037dee9d49ac128023b1df75071983b0bc7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 16/24] fix: telegraph noise converts volts to pixels with the
 resolution of the respective gate

---
 simcats/distortions/_random_telegraph_noise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 8e2fe84..61b366b 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -139,13 +139,13 @@ class RandomTelegraphNoise(DistortionInterface):
         if len(original.shape) == 2:
             resolution = original.shape
             if volt_limits_g1[0] == volt_limits_g1[1]:
-                scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             elif volt_limits_g2[0] == volt_limits_g2[1]:
-                scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                scale *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
             else:
                 scale *= np.maximum(
-                    resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1)),
-                    resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),
+                    resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1)),
+                    resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),
                 )
         else:
             resolution = (original.shape[0], original.shape[0])
-- 
2.43.0


From c5dc554c8cb4d9e871ee93635b86a03861ea1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 17/24] fix: telegraph noise with a scale below one pixel
 counts as one pixel instead of failing

---
 simcats/distortions/_random_telegraph_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 61b366b..33d7f17 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -299,7 +299,7 @@ def random_telegraph_noise(
         return original
     size = np.prod(original.shape)
     # length of a burst follows an geometric distribution
-    length = rng.geometric(p=1 / scale, size=size)
+    length = rng.geometric(p=1 / max(scale, 1), size=size)
 
     noise = np.array([])
     bi = 0  # set binary states, 0 means no burst, 1 means burst
-- 
2.43.0


From 66f2889559770442a23824d1ed6e91a808f8fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 18/24] fix: circular deformation with negative radius stays
 continuous beyond its radius

---
 simcats/sensor/deformation/_sensor_peak_deformation_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/deformation/_sensor_peak_deformation_circle.py b/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
index ad87c97..c9f92f6 100644
--- a/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
+++ b/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
@@ -92,7 +92,7 @@ class SensorPeakDeformationCircle(SensorPeakDeformationInterface):
 
         # Calculation of both possible points of the circle that have the distance dist to the middle line
         temp1 = mu0 - (radius_abs - cos_angle * radius_abs) * sign_radius
-        temp2 = mu0 - radius_volt * np.sign(radius_volt)
+        temp2 = mu0 - radius_abs * sign_radius
 
         # Selection of the result that is closer to the output mu0
         result = np.where(dist <= radius_abs, temp1, temp2)
-- 
2.43.0


From 3121f756b211d8442ec1533796156a03ef0d3b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 19/24] fix: transition blurring converts volts to pixels with
 the resolution of the blurred axis

---
 simcats/distortions/_transition_blurring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_transition_blurring.py b/simcats/distortions/_transition_blurring.py
index c9550b4..ecfe396 100644
--- a/simcats/distortions/_transition_blurring.py
+++ b/simcats/distortions/_transition_blurring.py
@@ -104,7 +104,7 @@ class OccupationTransitionBlurringFermiDirac(OccupationDistortionInterface):
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = fermi_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = fermi_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
@@ -220,7 +220,7 @@ class OccupationTransitionBlurringGaussian(OccupationDistortionInterface):
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = gaussian_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = gaussian_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
-- 
2.43.0


From a1d9cdb76f59cd3a6677ec575914ff63c6bab2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 20/24] fix: 1D sweeps above the last TCT raise the documented
 IndexError instead of reporting empty dots

---
 simcats/ideal_csd/geometric/_get_electron_occupation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simcats/ideal_csd/geometric/_get_electron_occupation.py b/simcats/ideal_csd/geometric/_get_electron_occupation.py
index 53af5db..6e20077 100644
--- a/simcats/ideal_csd/geometric/_get_electron_occupation.py
+++ b/simcats/ideal_csd/geometric/_get_electron_occupation.py
@@ -187,6 +187,8 @@ def get_electron_occupation(
         csd_points = np.vstack((col_values, row_values)).T
         csd_points_rot = rotate_points(points=csd_points, angle=-rotation)
         # iterate TCTs
+        # pixels that are not below any TCT are above the last one
+        csd_mask[:] = max(tct_functions.keys())
         for tct_value, tct_func in sorted(tct_functions.items(), reverse=True):
             y_vals_tct = tct_func(x_eval=csd_points_rot[:, 0], lut_entries=lut_entries)
 
-- 
2.43.0


From e2bf801d1adacd3f692fd36d0c7592fb4877bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 21/24] fix: TCT curve no longer jumps by a whole period at
 period borders hit up to rounding

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index a90850f..48933d2 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -5,7 +5,6 @@ The TCTs are used to generate the boundaries/structures for the geometrically si
 @author: f.hader
 """
 
-import math
 
 # used to check if a single x-value was passed to x_eval
 import numbers
@@ -136,8 +135,8 @@ def tct_bezier(
         # retrieve y values for given x_eval
         for x_id, x in zip(ids_wave, x_eval[ids_wave]):
             # detect position (rising/falling flank or bezier/rotated bezier)
-            x_mod_per = np.mod(x, period_length)
-            period_no = math.floor(x / period_length)
+            # (divmod keeps both consistent if x lies on a period border, which separate roundings do not)
+            period_no, x_mod_per = np.divmod(x, period_length)
             if x_mod_per < bezier_length:
                 # bezier at peak/maxima
                 if lut_entries:
-- 
2.43.0


From aa35afbae04f13e768a71ab094ee880e968d5252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 22/24] fix: TCT curves accept whole-number voltages (integer
 scalars and arrays)

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index 48933d2..94bc40f 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -54,7 +54,7 @@ def tct_bezier(
     else:
         single_value = False
     # copy x_eval so that the original supplied array is not modified
-    x_eval = np.copy(x_eval)
+    x_eval = np.array(x_eval, dtype=float)
 
     # setup array for resulting y-values
     y_res = np.zeros(x_eval.shape)
-- 
2.43.0


From 6a4111f85f13c1f5b1716ad3937471c588a0e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 23/24] fix: the final rise takes its fully conductive value at
 the given offset also for a shifted GLF (mu0 != 0)

---
 simcats/sensor/_sensor_rise_glf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_rise_glf.py b/simcats/sensor/_sensor_rise_glf.py
index 42ab746..01a8a66 100644
--- a/simcats/sensor/_sensor_rise_glf.py
+++ b/simcats/sensor/_sensor_rise_glf.py
@@ -216,7 +216,7 @@ class SensorRiseGLF(SensorRiseInterface):
                    asymmetry=self.asymmetry,
                    shape_factor=self.shape_factor,
                    denominator_offset=self.denominator_offset,
-                   offset= -self.fully_conductive + offset)
+                   offset=self.mu0 - self.fully_conductive + offset)
 
     def __repr__(self):
         return (
-- 
2.43.0


From 6788ddd685e058a488c384ddc9d7c97c28020614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 24/24] fix: the sampled configuration's distortions respect
 the quality multiplier

---
 .../_GaAs_v1_random_variations_v3_config_sampler.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
index 62366e7..99811f3 100644
--- a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
+++ b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
@@ -80,9 +80,9 @@ def sample_random_variations_v3_config(sensor_type: str = "SensorGeneric",
         raise ValueError(
             f"The parameter sensor_type must be either 'SensorGeneric' or 'SensorScanSensorGeneric'. The supplied value"
             f" '{sensor_type}' is not supported.")
-    config["occupation_distortions"] = sample_occupation_distortions()
-    config["sensor_potential_distortions"] = sample_sensor_potential_distortions()
-    config["sensor_response_distortions"] = sample_sensor_response_distortions()
+    config["occupation_distortions"] = sample_occupation_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_potential_distortions"] = sample_sensor_potential_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_response_distortions"] = sample_sensor_response_distortions(quality_multiplier=quality_multiplier)
     return config
 
 
-- 
2.43.0

