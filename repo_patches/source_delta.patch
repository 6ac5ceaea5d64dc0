From bf3ee6939bd23b7644671b3f71ecea7328d6ee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:02 +0000
Subject: [PATCH 01/27] fix: Mueller-Brown scaling factor no longer compounds
 over instances

The scaling factor was multiplied into the module-level prefactors, so every
scaled potential also changed all other Mueller-Brown potentials.
---
 bdld/potential/mueller_brown.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 774c08f..498d705 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -45,9 +45,8 @@ class MuellerBrownPotential(Potential):
         self.n_dim = 2
         self.ranges = [(-1.5, 1.5), (-0.5, 2.5)]
         self.scaling_factor = scaling_factor or 1.0
-        if scaling_factor:
-            global A
-            A *= self.scaling_factor
+        # per instance: the module-level coefficients are shared by all potentials
+        self.prefactors = A * self.scaling_factor
 
     def __str__(self) -> str:
         """Give out coefficients"""
@@ -64,6 +63,7 @@ class MuellerBrownPotential(Potential):
         # from Omar's bdls-code
         pot = 0.0
         force = np.array([0.0, 0.0])
+        A = self.prefactors
         x = pos[0]
         y = pos[1]
         for i in range(4):
@@ -89,6 +89,7 @@ class MuellerBrownPotential(Potential):
         :return: energy
         """
         pot = 0.0
+        A = self.prefactors
         x = pos[0]
         y = pos[1]
         for i in range(4):
@@ -107,6 +108,7 @@ class MuellerBrownPotential(Potential):
         :return force: array with force per direction
         """
         force = np.array([0.0, 0.0])
+        A = self.prefactors
         x = pos[0]
         y = pos[1]
         for i in range(4):
-- 
2.43.0


From 9f387052515b0c56826bfec81530e817511bf249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:02 +0000
Subject: [PATCH 02/27] fix: row-major order of grid points in three dimensions

The transposed meshgrid is only in row-major order for up to two dimensions, so
data of three-dimensional grids set from a function was stored transposed.
---
 bdld/grid.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 637f5b3..492730f 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -145,9 +145,8 @@ class Grid:
 
     def points(self) -> np.ndarray:
         """Return all grid points as a array of shape (n_points, dim) in row-major order"""
-        return np.array(np.meshgrid(*self.axes())).T.reshape(
-            np.prod(self.n_points), self.n_dim
-        )
+        mesh = np.meshgrid(*self.axes(), indexing="ij")
+        return np.stack(mesh, axis=-1).reshape(np.prod(self.n_points), self.n_dim)
 
     def set_from_func(self, func: Callable[..., float]) -> None:
         """Set data by applying function to all points
-- 
2.43.0


From 099e3ff435ca54a45981beaa9ebac182728ecb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:02 +0000
Subject: [PATCH 03/27] fix: coefficient files with a single row

genfromtxt returns a one-dimensional array for a single row, so reading such a
file failed with an IndexError.
---
 bdld/potential/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/potential/polynomial.py b/bdld/potential/polynomial.py
index dc5279e..8c7fd85 100644
--- a/bdld/potential/polynomial.py
+++ b/bdld/potential/polynomial.py
@@ -96,7 +96,7 @@ def coefficients_from_file(filename: str, n_dim: int) -> np.ndarray:
     :param filename: path to file holding the coefficients
     :param n_dim: dimensions of potential
     """
-    file_data = np.genfromtxt(filename)
+    file_data = np.atleast_2d(np.genfromtxt(filename))  # also for single row
 
     # highest polynomial order per dimension
     shape = [int(max(file_data[:, i])) + 1 for i in range(n_dim)]
-- 
2.43.0


From cb8697cb3ceeb76dbe1a65fe74730c94d501d27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:07 +0000
Subject: [PATCH 04/27] fix: kill and duplicate the right walkers when
 recalculating probabilities

Events are tuples (dup, kill), but with recalc_probs the walker with too high
density was duplicated and the one with too low density was overwritten.
---
 bdld/actions/birth_death.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 690140b..7fa222d 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -208,10 +208,10 @@ class BirthDeath(Action):
                 if rand[i] <= prob:
                     rand_other = self.random_other(num_part, i)
                     if beta[i] > 0:
-                        curr_event = (i, rand_other)
+                        curr_event = (rand_other, i)
                         self.stats.kill_count += 1
                     elif beta[i] < 0:
-                        curr_event = (rand_other, i)
+                        curr_event = (i, rand_other)
                         self.stats.dup_count += 1
                     self.perform_moves([curr_event])
                     event_list.append(curr_event)
-- 
2.43.0


From ec500b4e24d224fc0c6950aee17e2e0474231240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:07 +0000
Subject: [PATCH 05/27] fix: no birth-death event at zero probability

The random numbers are from [0, 1), so comparing with <= accepted a walker with
beta 0 on drawing exactly 0 (and crashed when recalculating probabilities).
---
 bdld/actions/birth_death.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 7fa222d..874eba6 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -176,7 +176,7 @@ class BirthDeath(Action):
             kill_list: List[int] = []
 
             prob = 1 - np.exp(-np.abs(beta) * self.dt * self.rate_fac)
-            event_particles = np.where(rand <= prob)[0]
+            event_particles = np.where(rand < prob)[0]
             self.rng.shuffle(event_particles)
             for i in event_particles:
                 if i not in kill_list:  # the move was accepted from the old beta!
@@ -205,7 +205,7 @@ class BirthDeath(Action):
                     self.stats.dup_attempts += 1
 
                 prob = 1 - np.exp(-np.abs(beta[i]) * self.dt * self.rate_fac)
-                if rand[i] <= prob:
+                if rand[i] < prob:
                     rand_other = self.random_other(num_part, i)
                     if beta[i] > 0:
                         curr_event = (rand_other, i)
-- 
2.43.0


From 70b5dd99b13c736627c9fbefcd79730f7b0a33e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 06/27] fix: new histograms start empty

---
 bdld/histogram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bdld/histogram.py b/bdld/histogram.py
index b2f86a9..dc5a0d3 100644
--- a/bdld/histogram.py
+++ b/bdld/histogram.py
@@ -46,6 +46,7 @@ class Histogram(grid.Grid):
             bins=self.n_points,
             range=self.histo_ranges,
         )
+        self.clear()  # remove the arbitrary value
         self.ranges = [
             (a[0], a[-1]) for a in self.axes()
         ]  # ranges of points in underlying grid
-- 
2.43.0


From 3ce5325f97e0707f5f46a15d553a5a142429a9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 07/27] fix: histogram action counts every frame exactly once

The frames not yet added were derived from the writes of the trajectory action:
frames were counted twice or missed at the end of a run, if no trajectory file was
written, for strides that do not divide the write stride and for resets between updates.
---
 bdld/actions/histogram_action.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bdld/actions/histogram_action.py b/bdld/actions/histogram_action.py
index e616625..7677336 100644
--- a/bdld/actions/histogram_action.py
+++ b/bdld/actions/histogram_action.py
@@ -95,6 +95,7 @@ class HistogramAction(Action):
                 f"Saving histogram every {self.write_stride} time steps to '{filename}'"
             )
         self.update_stride = traj_action.write_stride
+        self.last_update: int = 0  # frames up to this step were already considered
         print()
 
     def run(self, step: int):
@@ -111,6 +112,7 @@ class HistogramAction(Action):
         if step in self.reset:
             logging.info("Reset of histogram at step %s", step)
             self.histo.clear()
+            self.last_update = step  # do not add frames from before the reset later
 
     def final_run(self, step: int):
         """Same as run without stride checks
@@ -128,18 +130,15 @@ class HistogramAction(Action):
 
         :param step: current simulation step
         """
-        # take into account that the traj might have been written this step
-        last_write = (
-            self.traj_action.last_write
-            if self.traj_action.last_write != step
-            else self.traj_action.last_write - self.traj_action.write_stride
-        )
+        # independent of the writes of the trajectory action (might not write at all)
+        last_update = self.last_update
+        self.last_update = step
         return get_valid_data(
             self.traj_action.positions,
             step,
             self.stride,
             1,  # assumes that traj data is stored even if not written
-            last_write,
+            last_update,
         )
 
     def write(self, step: int = None):
-- 
2.43.0


From 323fc565e5b59c9d1ad4bf3921c635c04106e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 08/27] fix: do not write old rows again if there is no new
 data

---
 bdld/actions/action.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/actions/action.py b/bdld/actions/action.py
index 8ae81e7..dc66962 100644
--- a/bdld/actions/action.py
+++ b/bdld/actions/action.py
@@ -63,7 +63,8 @@ def get_valid_data(
     :param update_stride: number of time steps between data points
     :param last_write: when the data was last written (needs to be less than write_stride ago)
     """
-    if step == last_write:  # manual check because already_written is 0 due to modulo
+    # manual check for no new data because already_written is 0 due to modulo
+    if step // update_stride == last_write // update_stride:
         return data[:0]  # empty view
 
     write_stride = data.shape[0] * update_stride  # wrapping time of data
-- 
2.43.0


From 522d005686c0060f746b3bd27f5e13a7cb0807cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 09/27] fix: check of the number of dimensions of polynomial
 potentials

---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 1b41d9c..fa4e435 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -121,7 +121,7 @@ class Input:
         lambda lst: all(x > 0 for x in lst), "all values must be greater than zero"
     )
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
-    at_most_3dim = Condition(lambda x: x > 0 & x < 4, "must be between 1 and 3")
+    at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
     # @staticmethod
     # def match_dimensions(n_dim: int) -> Condition:
-- 
2.43.0


From 50f0e15ee26cc4e86b361d533b87220ba2825c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 10/27] fix: proper error for list options that can not be
 converted

---
 bdld/inputparser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index fa4e435..0985ec3 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -100,7 +100,14 @@ class InputOption:
         # parsing of lists is a bit more complicated
         if isinstance(self.keytype, list):
             val = section.get(self.key)
-            val = [self.keytype[0](x) for x in val.split(",")]
+            try:
+                val = [self.keytype[0](x) for x in val.split(",")]
+            except ValueError as e:
+                raise OptionError(
+                    f"could not be converted to list of {self.keytype[0].__name__}",
+                    self.key,
+                    section.name,
+                ) from e
         if self.condition:
             if not self.condition.function(val):
                 raise OptionError(self.condition.desc, self.key, section.name)
-- 
2.43.0


From 74498671674688b9a3f74a34794940445f22ed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 11/27] fix: proper error for unknown birth-death approximation
 variants

---
 bdld/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/main.py b/bdld/main.py
index 5e4e45f..25027be 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -241,9 +241,9 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         if options[key]:
             try:
                 approx_variant = ApproxVariant.from_str(options[key])
-            except KeyError as err:
+            except TypeError as err:
                 e = "The specified {} could not be understood".format(key)
-                raise inputparser.OptionError(e, "birth-death", key) from err
+                raise inputparser.OptionError(e, key, "birth-death") from err
             return approx_variant
         return None
 
-- 
2.43.0


From b50752b55952a140c92e7820990e1f2610d07047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 12/27] fix: birth-death seed of zero is a seed

---
 bdld/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 25027be..4fd85de 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -267,7 +267,7 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         options["recalculate-probabilities"],
         approx_variant,
         eq_density,
-        options["seed"] + 1000 if options["seed"] else None,
+        options["seed"] + 1000 if options["seed"] is not None else None,
         options["stats-stride"],
         options["stats-filename"],
     )
-- 
2.43.0


From b2a89518534edbcf6017f81a4b2c60829b9be95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 13/27] fix: reject states with inconsistent dimensions

---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 0985ec3..84abdc6 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -475,7 +475,7 @@ def min_max_to_ranges(
     try:
         n_dim = len(min_list[0])  # TypeError if not list
         for i, _ in enumerate(min_list):
-            if len(min_list[i]) != len(max_list[i]) != n_dim:
+            if not len(min_list[i]) == len(max_list[i]) == n_dim:
                 raise ValueError(f"Dimensions of min/max {i} are inconsistent")
     except TypeError:  # elements are not lists
         for min_max_i in min_list + max_list:
-- 
2.43.0


From 194952dc0c939887777e18723453bc17ecc6b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 14/27] fix: delta-f calculation in more than one dimension

---
 bdld/actions/delta_f_action.py | 2 +-
 bdld/main.py                   | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 45bb8e0..99a255e 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -158,7 +158,7 @@ def calculate_delta_f(fes: np.ndarray, kt: float, masks: List[np.ndarray]):
     :raises IndexError: if the dimensions of the FES and any of the masks do not match
     """
     probabilities = np.exp(-fes / float(kt)).reshape((-1))
-    state_probs = [np.sum(probabilities[m]) for m in masks]
+    state_probs = [np.sum(probabilities[m.reshape((-1))]) for m in masks]
     delta_f = [
         -kt * np.log(state_probs[i] / state_probs[0])
         for i in range(1, len(state_probs))
diff --git a/bdld/main.py b/bdld/main.py
index 4fd85de..69a3215 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -359,7 +359,10 @@ def setup_delta_f(options: Dict, fes_action: FesAction) -> DeltaFAction:
         raise ValueError(e_msg)
 
     fes_points = fes_action.histo_action.histo.points()
-    masks = pos_inside_ranges(fes_points, state_ranges)
+    masks = [
+        mask.reshape(fes_action.fes.data.shape)
+        for mask in pos_inside_ranges(fes_points, state_ranges)
+    ]
 
     return DeltaFAction(
         fes_action,
-- 
2.43.0


From 30f789c8e02640fcea8cc0c97b4c44f0cf36c394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 15/27] fix: name the time column in the headers of delta-f and
 particle distribution files

---
 bdld/actions/delta_f_action.py        | 2 +-
 bdld/actions/particle_distribution.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 99a255e..c5731ef 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -82,7 +82,7 @@ class DeltaFAction(Action):
             if ref:
                 for i, val in enumerate(self.ref_values):
                     constants[f"ref_{fields[i]}"] = val
-            initialize_file(self.filename, fields, constants)
+            initialize_file(self.filename, ["time"] + fields, constants)
             stride_str = (
                 f"of every {make_ordinal(self.stride)} time step "
                 if self.stride
diff --git a/bdld/actions/particle_distribution.py b/bdld/actions/particle_distribution.py
index da5bc1d..3029dcc 100644
--- a/bdld/actions/particle_distribution.py
+++ b/bdld/actions/particle_distribution.py
@@ -71,7 +71,7 @@ class ParticleDistributionAction(Action):
             constants = OrderedDict()  # add state ranges to file header
             for i, state in enumerate(self.states):
                 constants[f"state_{i}"] = str(state)
-            initialize_file(self.filename, fields, constants)
+            initialize_file(self.filename, ["timestep"] + fields, constants)
             stride_str = (
                 f"of every {make_ordinal(self.stride)} time step "
                 if self.stride
-- 
2.43.0


From 1e75d969c0281bb9062c79b9e40e410c31cfbdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 16/27] fix: proper error for fes or delta-f without the
 required section

---
 bdld/inputparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 84abdc6..eb6ffa8 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -341,7 +341,7 @@ class Input:
     def parse_fes(self, section: configparser.SectionProxy) -> None:
         """Define and parse the fes section"""
         if not self.histogram:
-            raise configparser.NoSectionError("histogram")
+            raise SectionError("histogram")
         options = [
             InputOption("kt", float, True, Input.positive),
             InputOption("stride", int, False, Input.positive),
@@ -358,7 +358,7 @@ class Input:
     def parse_delta_f(self, section: configparser.SectionProxy) -> None:
         """Define and parse if delta f should be calculated section"""
         if not self.fes:
-            raise configparser.NoSectionError("fes")
+            raise SectionError("fes")
         options = [
             InputOption("stride", int, False, Input.positive),
             InputOption("filename", str, False),
-- 
2.43.0


From bff9e0b2aaa5d310c47154c0825018d026ea14de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 17/27] fix: floating point errors when distributing walkers by
 fractions

---
 bdld/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 69a3215..66748bc 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -205,7 +205,10 @@ def init_particles(options: Dict, ld: LdType) -> None:
         normalized_fractions = np.array(options["fractions"]) / np.sum(
             options["fractions"]
         )
-        counts = [int(frac * options["number"]) for frac in normalized_fractions]
+        # round before truncating: the product might be slightly below a whole number
+        counts = [
+            int(round(frac * options["number"], 9)) for frac in normalized_fractions
+        ]
         counts[0] += options["number"] - np.sum(counts)  # rounding offset
         init_pos_choices = cast(
             List[List[float]], inputparser.get_all_numbered_values(options, "pos")
-- 
2.43.0


From 50fc1a105a61d5747abd4a0f59a2b1f09e34a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 18/27] fix: do not shrink grids whose range is a multiple of
 the stepsize

---
 bdld/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 492730f..40ed73a 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -309,7 +309,8 @@ def from_stepsizes(
             stepsizes = [stepsizes] * grid.n_dim
     grid.stepsizes = copy.deepcopy(stepsizes)
     for i, r in enumerate(ranges):
-        n_points_tmp = int(np.ceil((r[1] - r[0]) / stepsizes[i])) + 1 - int(shrink)
+        round_func = np.floor if shrink else np.ceil
+        n_points_tmp = int(round_func((r[1] - r[0]) / stepsizes[i])) + 1
         grid.ranges.append((float(r[0]), r[0] + stepsizes[i] * (n_points_tmp - 1)))
         grid.n_points.append(n_points_tmp)
     return grid
-- 
2.43.0


From dd5e944495d35756efc3c89aa40d52495f396a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:34 +0000
Subject: [PATCH 19/27] fix: reject unknown boundary conditions instead of
 ignoring them

---
 bdld/inputparser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index eb6ffa8..689a125 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -244,7 +244,13 @@ class Input:
                 "type",
                 section.name,
             )
-        options.append(InputOption("boundary-condition", str, False))
+        allowed_boundary_condition = Condition(
+            lambda x: x in ["reflective", "periodic"],
+            "must be one of ['reflective', 'periodic']",
+        )
+        options.append(
+            InputOption("boundary-condition", str, False, allowed_boundary_condition)
+        )
         self.potential = self.parse_section(section, options)
 
     def parse_particles(self, section: configparser.SectionProxy) -> None:
-- 
2.43.0


From 6d7cc47c0adcca21d743c73accca37e41db89817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:34 +0000
Subject: [PATCH 20/27] fix: allow coefficient files for 1D potentials as
 documented

---
 bdld/inputparser.py | 1 +
 bdld/main.py        | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 689a125..98cb498 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -221,6 +221,7 @@ class Input:
                     type_option,
                     n_dim_option,
                     InputOption("coeffs", [float], False),
+                    InputOption("coeffs-file", str, "coeffs" not in section.keys()),
                     InputOption("min", float, True),
                     InputOption("max", float, True),
                 ]
diff --git a/bdld/main.py b/bdld/main.py
index 66748bc..bc65c8f 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -128,9 +128,12 @@ def setup_potential(options: Dict) -> Potential:
     if options["type"] == "polynomial":
         if options["n_dim"] == 1:
             ranges = [(options["min"], options["max"])]
-            pot: Potential = potential.polynomial.PolynomialPotential(
-                options["coeffs"], ranges
-            )
+            coeffs = options["coeffs"]
+            if coeffs is None:
+                coeffs = potential.polynomial.coefficients_from_file(
+                    options["coeffs-file"], 1
+                )
+            pot: Potential = potential.polynomial.PolynomialPotential(coeffs, ranges)
         else:
             ranges = list(zip(options["min"], options["max"]))
             coeffs = potential.polynomial.coefficients_from_file(
-- 
2.43.0


From 347c74c3c9ba473176e4dba0d3aa267b5fe4d518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:34 +0000
Subject: [PATCH 21/27] fix: use the kt option of the [fes] section

---
 bdld/actions/delta_f_action.py | 4 ++--
 bdld/actions/fes_action.py     | 4 +++-
 bdld/main.py                   | 1 +
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index c5731ef..f822b3c 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -67,8 +67,8 @@ class DeltaFAction(Action):
         else:  # just store one data set
             self.delta_f = np.empty((len(self.masks)))
 
-        # copy temp and timestep from LD
-        self.kt = self.fes_action.histo_action.traj_action.ld.kt
+        # copy temp from FES and timestep from LD
+        self.kt = self.fes_action.kt
         self.dt = self.fes_action.histo_action.traj_action.ld.dt
 
         if ref:
diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index c3df662..65dadbc 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -41,6 +41,7 @@ class FesAction(Action):
         plot_domain: Optional[Tuple[float, float]] = None,
         plot_title: str = None,
         ref: Optional[np.ndarray] = None,
+        kt: Optional[float] = None,
     ) -> None:
         """Set up fes calculation for a Histogram
 
@@ -59,6 +60,7 @@ class FesAction(Action):
         :param plot_filename: filename for plot, optional
         :param plot_domain: specify domain for plots, optional
         :param ref: reference fes for plot, optional
+        :param kt: thermal energy, defaults to the one of the dynamics
         :raise ValueError: if a write_stride but no stride is passed
         :raise ValueError: if a write_stride but no filename is passed
         :raise ValueError: if a plot_stride but no stride is passed
@@ -66,7 +68,7 @@ class FesAction(Action):
         """
         print("Setting up FES calculation for the histogram\n" + "Parameters:")
         self.histo_action = histo_action
-        self.kt = self.histo_action.traj_action.ld.kt
+        self.kt = kt or self.histo_action.traj_action.ld.kt
         print(f"  kt = {self.kt}")
         # set up grid by running analysis to have dimensions and allow checks on shape
         self.fes = calculate_fes(self.histo_action.histo, self.kt)
diff --git a/bdld/main.py b/bdld/main.py
index bc65c8f..10b07ef 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -352,6 +352,7 @@ def setup_fes(options: Dict, histo_action: HistogramAction) -> FesAction:
         options["plot-domain"],
         options["plot-title"],
         ref,
+        options["kt"],
     )
 
 
-- 
2.43.0


From e5b400b32c04e1e350c09345d36193c70136d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:07 +0000
Subject: [PATCH 22/27] fix: do not count walkers without excess as duplication
 attempts

---
 bdld/actions/birth_death.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 874eba6..4a4640c 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -169,7 +169,7 @@ class BirthDeath(Action):
         if not self.recalc_probs:
             curr_kill_attempts = np.count_nonzero(beta > 0)
             self.stats.kill_attempts += curr_kill_attempts
-            self.stats.dup_attempts += num_part - curr_kill_attempts
+            self.stats.dup_attempts += np.count_nonzero(beta < 0)
 
             # lists with particles to be killed and duplicated (in order)
             dup_list: List[int] = []
-- 
2.43.0


From dc975bafde64b053477553e876ec8a7fed3b859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:21 +0000
Subject: [PATCH 23/27] fix: write grids with more than two dimensions to file

---
 bdld/grid.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bdld/grid.py b/bdld/grid.py
index 40ed73a..d3974b7 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -209,6 +209,16 @@ class Grid:
                 fmt,
                 header,
             )
+        else:
+            np.savetxt(
+                filename,
+                np.c_[self.points(), self.data.flatten()],
+                fmt=fmt,
+                header=header,
+                delimiter=" ",
+                newline="\n",
+                comments="",
+            )
 
 
 def convolve(g1: Grid, g2: Grid, mode: str = "valid", method: str = "auto") -> Grid:
-- 
2.43.0


From 8bc042eb58d2fba4971760784879b0a8c9ecc365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 24/27] fix: keep the file extension of fes plots written
 during the run

The step number was appended after the extension, e.g. fes.png_100, which is
no known image format, so the run stopped and asked for another filename.
---
 bdld/actions/fes_action.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index 65dadbc..1759d7d 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -5,6 +5,7 @@ Also holds functions for calculating and plotting the FES
 
 from collections import OrderedDict
 import logging
+import os
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -170,7 +171,9 @@ class FesAction(Action):
         """
         if self.plot_filename:
             if step:
-                plot_filename = f"{self.plot_filename}_{step}"
+                # keep the extension, as it determines the image format
+                root, ext = os.path.splitext(self.plot_filename)
+                plot_filename = f"{root}_{step}{ext}"
                 plot_title = f"{self.plot_title}_{step}"
             else:
                 plot_filename = self.plot_filename
-- 
2.43.0


From c6e29461926508cb885eb633802fc9ce601e4074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 25/27] fix: axes of two-dimensional fes plots were exchanged

imshow shows the first index vertically while the labels of the horizontal
axis are the ones of the first dimension.
---
 bdld/actions/fes_action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index 1759d7d..ee2fb37 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -256,7 +256,7 @@ def plot_fes(
             vmin = None
             vmax = None
         img = ax.imshow(
-            fes,
+            fes.T,  # rows of the image are the vertical axis
             origin="lower",
             extent=(axes[0][0], axes[0][-1], axes[-1][0], axes[-1][-1]),
             vmin=vmin,
-- 
2.43.0


From d3f10be18d1c389e941987ae0c7db9eb189fb0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:30 +0000
Subject: [PATCH 26/27] fix: reject histogram ranges that do not match the
 dimensions of the potential

The lists of min and max were combined with zip, so that additional values
of one of them were silently ignored.
---
 bdld/inputparser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 98cb498..341481b 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -130,9 +130,12 @@ class Input:
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
     at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
-    # @staticmethod
-    # def match_dimensions(n_dim: int) -> Condition:
-    # return Condition(lambda x: x == n_dim, f"wrong dimensions (must be {n_dim})")
+    @staticmethod
+    def match_dimensions(n_dim: int) -> Condition:
+        """Condition that a list has one value per dimension"""
+        return Condition(
+            lambda lst: len(lst) == n_dim, f"wrong dimensions (must be {n_dim})"
+        )
 
     def __init__(self, filename: str) -> None:
         self.filename = filename
@@ -338,9 +341,10 @@ class Input:
                 InputOption("bins", int, True, Input.positive),
             ]
         else:
+            match_dim = Input.match_dimensions(self.potential["n_dim"])
             options += [
-                InputOption("min", [float], True),
-                InputOption("max", [float], True),
+                InputOption("min", [float], True, match_dim),
+                InputOption("max", [float], True, match_dim),
                 InputOption("bins", [int], True, Input.all_positive),
             ]
         self.histogram = self.parse_section(section, options)
-- 
2.43.0


From c4bd957d3c765a6842b83c72162c5be5b91b50f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:30 +0000
Subject: [PATCH 27/27] fix: reject potential ranges that do not match n_dim

Additional values in the lists of min or max were silently ignored.
---
 bdld/inputparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 341481b..5e198d7 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -229,12 +229,13 @@ class Input:
                     InputOption("max", float, True),
                 ]
             else:
+                match_dim = Input.match_dimensions(n_dim)
                 options = [
                     type_option,
                     n_dim_option,
                     InputOption("coeffs-file", str, True),
-                    InputOption("min", [float], True),
-                    InputOption("max", [float], True),
+                    InputOption("min", [float], True, match_dim),
+                    InputOption("max", [float], True, match_dim),
                 ]
         elif pot_type == "mueller-brown":
             options = [
-- 
2.43.0

