From 23c5f64afc0eddab85692c6b0a676c538e7cfd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 01/17] fix: import math and util in roe.py (integer express
 matrix for charge injection raised NameError)

---
 arcticpy/roe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index f73794a..e99a83e 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -48,9 +48,12 @@ phase 2 is closer than phase 1:
 | Readout   
 +----------- 
 """
+import math
 import numpy as np
 from copy import deepcopy
 
+from arcticpy import util
+
 
 class ROEPhase(object):
     def __init__(
-- 
2.43.0


From e15ae4a21409c7bfd1198381ce51ee8836f24df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 02/17] fix: do not store the default number of transfers in
 the caller's ROEChargeInjection

---
 arcticpy/roe.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index e99a83e..7baf001 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -691,25 +691,28 @@ class ROEChargeInjection(ROE):
 
         window_range = range(pixels) if isinstance(pixels, int) else pixels
         n_pixels = max(window_range) + 1
+        # Don't store the default, which depends on the supplied image
         if self.n_pixel_transfers is None:
-            self.n_pixel_transfers = n_pixels + offset
+            n_pixel_transfers = n_pixels + offset
+        else:
+            n_pixel_transfers = self.n_pixel_transfers
 
         # Set default express to all transfers and check no larger
         if express == 0:
-            express = self.n_pixel_transfers
+            express = n_pixel_transfers
         else:
-            express = min(express, self.n_pixel_transfers)
+            express = min(express, n_pixel_transfers)
 
         # Compute the multiplier factors
         express_matrix = np.zeros((express, n_pixels), dtype=self.express_matrix_dtype)
-        max_multiplier = self.n_pixel_transfers / express
+        max_multiplier = n_pixel_transfers / express
         if self.express_matrix_dtype == int:
             max_multiplier = math.ceil(max_multiplier)
             for i in reversed(range(express)):
                 express_matrix[i, :] = util.set_min_max(
                     max_multiplier,
                     0,
-                    self.n_pixel_transfers - sum(express_matrix[:, 0]),
+                    n_pixel_transfers - sum(express_matrix[:, 0]),
                 )
         else:
             express_matrix[:] = max_multiplier
-- 
2.43.0


From 84b194234460b7cf9d6b406e5c8eaf897e1725b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 03/17] fix: apply the spatial window to the charge-injection
 express matrix (IndexError for windows not starting at 0)

---
 arcticpy/roe.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 7baf001..0e9da44 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -725,7 +725,14 @@ class ROEChargeInjection(ROE):
             express_matrix, time_window_range
         )
 
-        return express_matrix.astype(float), monitor_traps_matrix
+        # Keep only the spatial region of interest
+        express_matrix = express_matrix[:, window_range]
+        monitor_traps_matrix = monitor_traps_matrix[:, window_range]
+
+        return (
+            np.ascontiguousarray(express_matrix.astype(float)),
+            np.ascontiguousarray(monitor_traps_matrix),
+        )
 
     def save_trap_states_matrix_from_express_matrix(self, express_matrix):
         """
-- 
2.43.0


From 6c03f2c954755ca2e2b8b2b9972c88862701ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 04/17] fix: report the mismatched number of trap densities
 instead of raising UnboundLocalError

---
 arcticpy/trap_managers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 295e298..da688f7 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -290,7 +290,7 @@ class TrapManager(object):
     def n_traps_per_pixel(self, values):
         if len(values) != len(self.traps):
             raise ValueError(
-                f"{len(value)} trap densities supplied, for {len(self.traps)} species of traps"
+                f"{len(values)} trap densities supplied, for {len(self.traps)} species of traps"
             )
         for i, value in enumerate(values):
             self.traps[i].density = float(value)
-- 
2.43.0


From 9d103641b8e11bd53d64994e4dc1b74ad2ba7e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 05/17] fix: surface filling function used a misspelt attribute
 and a nested default bloom level

---
 arcticpy/ccd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arcticpy/ccd.py b/arcticpy/ccd.py
index 41485a1..c6a51e3 100644
--- a/arcticpy/ccd.py
+++ b/arcticpy/ccd.py
@@ -160,8 +160,9 @@ class CCD(object):
             self._well_bloom_level = value
         else:
             if value is None:
-                value = self.full_well_depth
-            self._well_bloom_level = [value] * self.n_phases
+                self._well_bloom_level = list(self.full_well_depth)
+            else:
+                self._well_bloom_level = [value] * self.n_phases
 
     def cloud_fractional_volume_from_n_electrons_and_phase(
         self, n_electrons, phase=0, surface=False
@@ -249,7 +250,7 @@ class CCD(object):
                 return 0
 
             if surface:
-                empty = self.blooming_level[phase]
+                empty = self.well_bloom_level[phase]
                 beta = 1
             else:
                 empty = self.well_notch_depth[phase]
-- 
2.43.0


From 60f70d266132879bad04f3d9b4df9736e78cda17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 06/17] fix: avoid dividing by zero when the default bloom
 level leaves no volume to fill

---
 arcticpy/ccd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arcticpy/ccd.py b/arcticpy/ccd.py
index c6a51e3..3d51d54 100644
--- a/arcticpy/ccd.py
+++ b/arcticpy/ccd.py
@@ -257,6 +257,10 @@ class CCD(object):
                 beta = self.well_fill_power[phase]
             well_range = self.full_well_depth[phase] - empty
 
+            # No volume to fill, e.g. the default of no blooming
+            if well_range == 0:
+                return 0
+
             volume = (
                 util.set_min_max((n_electrons - empty) / well_range, 0, 1)
             ) ** beta
-- 
2.43.0


From 7d9d9ced180db7d570417600fa7c3dd0b2da3286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 07/17] fix: saving trap states for a single-pixel window
 raised UnboundLocalError

---
 arcticpy/roe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 0e9da44..c03fab5 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -618,6 +618,7 @@ class ROE(ROEAbstract):
 
         if not self.empty_traps_for_first_transfers:
             for express_index in range(n_express - 1):
+                row_index = 0
                 for row_index in range(n_pixels - 1):
                     if express_matrix[express_index + 1, row_index + 1] > 0:
                         break
-- 
2.43.0


From 30e5649bb5aa604564479f659185985f7c0106d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 08/17] fix: choose when to save trap states independently of
 the time window

---
 arcticpy/main_utils.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 7914981..8dbe19c 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -124,9 +124,10 @@ def cy_clock_charge_in_one_direction(
     )
 
     # ; and whether the trap occupancy states must be saved for the next express
-    # pass rather than being reset (usually at the end of each express pass)
+    # pass rather than being reset (usually at the end of each express pass),
+    # regardless of which transfers are in the time window
     save_trap_states_matrix = roe.save_trap_states_matrix_from_express_matrix(
-        express_matrix=express_matrix
+        express_matrix=monitor_traps_matrix
     )
 
     # Decide in advance which steps need to be evaluated and which can be skipped
-- 
2.43.0


From 51e333995958334caa930b174faa2a445df248a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:57 +0000
Subject: [PATCH 09/17] fix: charge released towards the readout from the first
 row was written outside of the image buffer

---
 arcticpy/main_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 8dbe19c..61b9d43 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -10,7 +10,7 @@ from arcticpy.trap_managers import AllTrapManager
 
 @cython.boundscheck(False)
 @cython.nonecheck(False)
-@cython.wraparound(False)
+@cython.wraparound(True)  # Charge moved past the first row goes in the padding
 def cy_clock_charge_in_one_direction(
     image_in,
     ccd,
-- 
2.43.0


From 95ddcaed4cd29a37d35cea54b89e068c8d1c52f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 10/17] fix: extend the watermarks when more transfers than
 expected happen before the traps are emptied

---
 arcticpy/trap_managers.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index da688f7..057d721 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -365,6 +365,28 @@ class TrapManager(object):
         """ Reset the trap watermarks for the next run of release and capture. """
         self.watermarks.fill(0)
 
+    def extend_watermarks_if_almost_full(self):
+        """ Make sure there is space for the next transfer's new watermarks.
+        
+        The initial array is large enough for max_n_transfers, but more than
+        that can happen before the traps are next emptied, e.g. if they keep 
+        their occupancies between columns.
+        """
+        # Including at least one zero, used to find the highest used watermark
+        n_needed = 1 + self.n_watermarks_per_transfer
+        if np.all(self.watermarks[-n_needed:, 0] == 0):
+            return
+
+        self.watermarks = np.concatenate(
+            (
+                self.watermarks,
+                np.zeros(
+                    (len(self.watermarks) + n_needed, self.watermarks.shape[1]),
+                    dtype=float,
+                ),
+            )
+        )
+
     def watermark_index_above_cloud_from_cloud_fractional_volume(
         self, cloud_fractional_volume, watermarks, max_watermark_index
     ):
@@ -717,6 +739,8 @@ class TrapManager(object):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        self.extend_watermarks_if_almost_full()
+
         # Initial watermarks and number of electrons in traps
         # watermarks_initial = deepcopy(self.watermarks)
         watermarks_initial = np.array(self.watermarks)
@@ -1041,6 +1065,8 @@ class TrapManagerInstantCapture(TrapManager):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        self.extend_watermarks_if_almost_full()
+
         # Save the initial watermarks and number of electrons in traps, in case
         # there aren't enough free electrons to fill all the identified traps
         watermarks_initial = deepcopy(self.watermarks)
-- 
2.43.0


From ac21a957398be86b02aed60e8de761844fc88603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 11/17] fix: combined release and capture could capture more
 electrons than available

---
 arcticpy/trap_managers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 057d721..6df7eef 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -748,6 +748,10 @@ class TrapManager(object):
             watermarks=self.watermarks
         )
 
+        # The most electrons that can be captured overall (any that are released
+        # below then recaptured do not change the net number)
+        n_free_electrons_initial = n_free_electrons
+
         # Probabilities of being full after release and/or capture
         (
             fill_probabilities_from_empty,
@@ -845,10 +849,13 @@ class TrapManager(object):
             return 0
 
         # Not enough available electrons to capture
-        enough = n_free_electrons / (
+        enough = n_free_electrons_initial / (
             n_trapped_electrons_final - n_trapped_electrons_initial
         )
-        if 0 < enough < 1:
+        if (
+            n_trapped_electrons_final > n_trapped_electrons_initial
+            and 0 <= enough < 1
+        ):
             # For watermark fill fractions that increased, tweak them such that
             # the resulting increase instead matches the available electrons
             self.watermarks = self.updated_watermarks_from_capture_not_enough(
-- 
2.43.0


From 590c4e30acfa181175c9766e7560ed9626ba994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 12/17] fix: watermark levels that were empty before a capture
 could be treated as already filled

---
 arcticpy/trap_managers.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 6df7eef..4aea2ee 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -264,6 +264,13 @@ class TrapManager(object):
         """
         return 1
 
+    @property
+    def empty_watermark_value(self):
+        """ The value for an empty watermark level, here 0 because we are 
+            monitoring the fill fraction.
+        """
+        return 0
+
     @property
     def n_watermarks_per_transfer(self):
         """ Each transfer can create up to 2 new watermark levels (at the other 
@@ -582,6 +589,7 @@ class TrapManager(object):
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
         watermarks_initial[0, 0] = self.watermarks[0, 0]
+        watermarks_initial[0, 1:] = self.empty_watermark_value
 
         # Update the fill fractions
         self.watermarks[0, 1:] = fill_probabilities_from_empty
@@ -823,6 +831,9 @@ class TrapManager(object):
             watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
                 watermark_index_above_cloud, 0
             ]
+            watermarks_initial[
+                watermark_index_above_cloud, 1:
+            ] = self.empty_watermark_value
 
         # Continue with capture having prepared the new watermark at the cloud
         # and released from any watermarks above the cloud
@@ -967,6 +978,7 @@ class TrapManagerInstantCapture(TrapManager):
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
         watermarks_initial[0, 0] = self.watermarks[0, 0]
+        watermarks_initial[0, 1:] = self.empty_watermark_value
 
         # Update the fill fractions
         self.watermarks[0, 1:] = self.filled_watermark_value
@@ -1136,6 +1148,9 @@ class TrapManagerInstantCapture(TrapManager):
             watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
                 watermark_index_above_cloud, 0
             ]
+            watermarks_initial[
+                watermark_index_above_cloud, 1:
+            ] = self.empty_watermark_value
 
         # Continue with capture having prepared the new watermark at the cloud
         # and released from any watermarks above the cloud
@@ -1261,6 +1276,11 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
         """ The value for a filled watermark level, here 0 is an elapsed time """
         return 0
 
+    @property
+    def empty_watermark_value(self):
+        """ The value for an empty watermark level, here an elapsed time """
+        return np.inf
+
     def watermarks_converted_to_fill_fractions_from_elapsed_times(self, watermarks):
         """ Convert the watermark values to fill fractions.
 
-- 
2.43.0


From 8f2312e1e6750197c1c64b2063e25b19ce5851b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 13/17] fix: capture with too few electrons raised TypeError
 for traps tracked by elapsed time

---
 arcticpy/trap_managers.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 4aea2ee..32e2afc 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -1366,35 +1366,26 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
             initial_watermarks_from_n_pixels_and_total_traps().
         """
         # Convert to fill fractions
-        for level in range(np.argmax(watermarks[:, 0] == 0)):
-            for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks[level, i_trap]
-                )
-                watermarks_initial[
-                    level, i_trap
-                ] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks_initial[level, i_trap]
-                )
+        watermarks = self.watermarks_converted_to_fill_fractions_from_elapsed_times(
+            watermarks
+        )
+        watermarks_initial = self.watermarks_converted_to_fill_fractions_from_elapsed_times(
+            watermarks_initial
+        )
 
         # Update the fill fractions in the standard way
         watermarks = super(
             TrapManagerTrackTime, self
         ).updated_watermarks_from_capture_not_enough(
-            self,
             watermarks=watermarks,
             watermarks_initial=watermarks_initial,
             enough=enough,
         )
 
         # Convert back to elapsed times
-        for level in range(np.argmax(watermarks[:, 0] == 0)):
-            for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.time_elapsed_from_fill_fraction(
-                    fill_fraction=watermarks[level, i_trap]
-                )
-
-        return watermarks
+        return self.watermarks_converted_to_elapsed_times_from_fill_fractions(
+            watermarks
+        )
 
     def update_watermark_values_for_release(self, watermark_values, dwell_time):
         """ 
-- 
2.43.0


From a8ae0b335f6a7e4739616d467927e7e6aa5e1cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 14/17] fix: choose the model of a trap group by all of its
 species

The manager was chosen by the first species of a group alone, so a group
of instant- and gradual-capture species gave different images depending on
the order in which the species were listed: with the instant-capture
species first, the gradual capture of the others was silently ignored.
---
 arcticpy/trap_managers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 32e2afc..0f94528 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -96,7 +96,7 @@ class AllTrapManager(UserList):
                     trap_manager = TrapManagerTrackTime(
                         traps=trap_group, max_n_transfers=max_n_transfers
                     )
-                elif isinstance(trap_group[0], TrapInstantCapture):
+                elif all(isinstance(trap, TrapInstantCapture) for trap in trap_group):
                     trap_manager = TrapManagerInstantCapture(
                         traps=trap_group, max_n_transfers=max_n_transfers
                     )
-- 
2.43.0


From 3c440d4d0430228190a82ed894e5ba1836af284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 15/17] fix: report a clock sequence that does not match the
 phases of the CCD

With fewer phases in the CCD than in the clock sequence the traps were
silently only exposed to the charge held under the first ones; with more,
an AttributeError was raised far from the cause.
---
 arcticpy/main_utils.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 61b9d43..f1708b9 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -107,6 +107,11 @@ def cy_clock_charge_in_one_direction(
         The output array of pixel values.
     """
 
+    if roe.n_phases != ccd.n_phases:
+        raise ValueError(
+            f"Number of phases in the clock sequence ({roe.n_phases}) and the CCD ({ccd.n_phases}) do not match"
+        )
+
     # Generate the arrays over each step for: the number of of times that the
     # effect of each pixel-to-pixel transfer can be multiplied for the express
     # algorithm; and whether the traps must be monitored (usually whenever
-- 
2.43.0


From 3289381add1ee032ffbd30eb07a4a77c513574c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 16/17] fix: computing all transfers but one raised IndexError
 when traps start empty

The first transfer was taken out of the express matrix but not put back when
express was one less than the number of pixels.
---
 arcticpy/roe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index c03fab5..997d231 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -525,7 +525,10 @@ class ROE(ROEAbstract):
 
         # Temporarily ignore the first pixel-to-pixel transfer, if it is to be
         # handled differently than the rest
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        first_transfer_is_separate = (
+            self.empty_traps_for_first_transfers and express < n_pixels
+        )
+        if first_transfer_is_separate:
             n_pixels -= 1
 
         # Initialise an array with enough pixels to contain the supposed image,
@@ -551,7 +554,7 @@ class ROE(ROEAbstract):
         # Add an extra (first) transfer for every pixel, the effect of which
         # will only ever be counted once, because it is physically different
         # from the other transfers (it sees only empty traps)
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        if first_transfer_is_separate:
             # Store current matrix, which is correct for one-too-few pixel-to-pixel transfers
             express_matrix_small = express_matrix
             # Create a new matrix for the full number of transfers
-- 
2.43.0


From db8f77b9c95203a8abf5c88e80a1f5e8ab158fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 17/17] fix: rounded express multipliers of trap pumping could
 become negative

Rounding each multiplier and correcting the last one could leave that last
one below zero (e.g. 11 pumps in 7 passes); round the running total instead.
---
 arcticpy/roe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 997d231..26f4ec5 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -872,8 +872,8 @@ class ROETrapPumping(ROEAbstract):
         # Make sure all values are integers, but still add up to the desired
         # number of pumps
         if self.express_matrix_dtype == int:
-            express_multipliers = list(map(int, np.round(express_multipliers)))
-            express_multipliers[-1] += self.n_pumps - sum(express_multipliers)
+            n_pumps_done = np.round(np.cumsum([0] + express_multipliers))
+            express_multipliers = list(map(int, np.diff(n_pumps_done)))
 
         # Initialise an array
         express_matrix = np.zeros(
-- 
2.43.0

