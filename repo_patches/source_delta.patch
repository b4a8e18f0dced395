From 2447acb7434ace7d9315cc5d7c323ebfd1195d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 01/80] fix: reload strings as str instead of the repr of bytes
 (h5py >= 3)

---
 qtune/storage.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 783a523..56479e2 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -45,6 +45,16 @@ def _get_dtype(arr):
     return arr.dtype
 
 
+def _decode_strings(arr: np.ndarray) -> np.ndarray:
+    """h5py >= 3 returns variable length strings as bytes."""
+    if arr.dtype == 'O':
+        decoded = np.empty_like(arr)
+        for idx, entry in np.ndenumerate(arr):
+            decoded[idx] = entry.decode('utf-8') if isinstance(entry, bytes) else entry
+        return decoded
+    return arr
+
+
 def _import_all():
     import qtune.autotuner
     import qtune.evaluator
@@ -247,12 +257,12 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
 
             if hdf5_obj.attrs['#type'] == 'Series':
                 idx = hdf5_obj.attrs['index']
-                result = pd.Series(data=np.asarray(hdf5_obj), index=idx)
+                result = pd.Series(data=_decode_strings(np.asarray(hdf5_obj)), index=idx)
                 deserialized[hdf5_obj.id] = result
                 return result
 
             if hdf5_obj.attrs['#type'] == 'str':
-                result = str(np.asarray(hdf5_obj))
+                result = str(_decode_strings(np.asarray(hdf5_obj)))
                 deserialized[hdf5_obj.id] = result
                 return result
 
-- 
2.43.0


From 14ec908f1d2fc9e539c88ce24b4756809f314462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 02/80] fix: keep serialized temporaries alive so that a reused
 id is not stored as a reference to another object

---
 qtune/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index 56479e2..42337cb 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -117,6 +117,8 @@ def _to_hdf5(hdf5_parent_group: h5py.Group, name, obj, serialized):
         serialized[id(obj)] = hdf5_group
 
         data = obj.to_hdf5()
+        # keep temporary objects alive so that their ids can not be reused while serialized is in use
+        serialized.setdefault('temporaries', []).append(data)
         for key, value in data.items():
             _to_hdf5(hdf5_group, key, value, serialized)
         return
-- 
2.43.0


From 5c9117618d31a82f8e899c44a78ec1de1e9a0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 03/80] fix: FiniteDifferencesGradientEstimator can be reloaded
 with stored measurements

---
 qtune/gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index a699a6a..66e5f24 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -114,8 +114,8 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
         self._covariance = covariance
 
         if stored_measurements is not None:
-            for measurement in stored_measurements:
-                pd.testing.assert_index_equal(measurement.index, epsilon.index)
+            for position, *_ in stored_measurements:
+                pd.testing.assert_index_equal(position.index, self._epsilon.index)
         self._stored_measurements = stored_measurements or []
 
         # only for debugging purposes
-- 
2.43.0


From 8a52c9525cc53f5430705f6e88729defa8e47655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 04/80] fix: symmetric finite differences ignore measurements
 at the base point instead of pairing them

---
 qtune/gradient.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 66e5f24..bfdf375 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -189,6 +189,12 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 self._stored_measurements.append((position[self._current_position.index], value, variance))
 
         elif self._current_estimate is None:
+            if self._symmetric_calculation and np.allclose(position[self._current_position.index],
+                                                           self._current_position.astype(float),
+                                                           rtol=0, atol=1e-9 * self._epsilon.abs().min()):
+                # the base point is not part of any symmetric pair
+                return
+
             self._stored_measurements.append((position[self._current_position.index], value, variance))
 
             positions, values, variances = zip(*self._stored_measurements)
-- 
2.43.0


From a1d8709c6a6aa03d7415922ebc1f78cf3e5e7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 05/80] fix: ParameterTuner.evaluate accepts targets with
 invariant parameters which are not evaluated

---
 qtune/parameter_tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index fb394b9..817c27e 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -161,7 +161,8 @@ class ParameterTuner(metaclass=HDF5Serializable):
             parameter, variance = evaluator.evaluate()
             parameters.append(parameter)
             variances.append(variance)
-        return pd.concat(parameters)[self.parameters], pd.concat(variances)[self.parameters]
+        # parameters which are only kept invariant are not necessarily evaluated by this tuner
+        return pd.concat(parameters).reindex(self.parameters), pd.concat(variances).reindex(self.parameters)
 
     def is_tuned(self, voltages: pd.Series) -> bool:
         """
-- 
2.43.0


From 6e64f5ee977ae2c4a124b44fe1d106118a203db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 06/80] fix: NewtonSolver leaves parameters without desired
 value invariant instead of tuning them to zero

---
 qtune/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index f32e986..2f638c4 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -229,7 +229,7 @@ class NewtonSolver(Solver):
         # our jacobian is sufficiently accurate
         # nan targets are replaced with the current values
 
-        required_diff = self.target.desired.add(-1 * self._current_values, fill_value=0).fillna(0)
+        required_diff = self.target.desired.sub(self._current_values.fillna(0)).fillna(0)
 
         jacobian = self.jacobian[self._current_position.index]
 
-- 
2.43.0


From 1409647121180efc09efb0fa47452f8c42d4c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 07/80] fix: NewtonSolver passes each gradient estimator the
 variance of its own parameter

---
 qtune/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 2f638c4..b2f8a0a 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -245,7 +245,8 @@ class NewtonSolver(Solver):
     def update_after_step(self, position: pd.Series, values: pd.Series, variances: pd.Series):
         for estimator, value, value_index, variance in zip(self._gradient_estimators,
                                                            values[self._current_values.index],
-                                                           self._current_values.index, variances):
+                                                           self._current_values.index,
+                                                           variances[self._current_values.index]):
             if not math.isnan(self.target.desired[value_index]):
                 estimator.update(position, value, variance, is_new_position=True)
         self._current_position = position[self._current_position.index]
-- 
2.43.0


From 2f25b373f75143fddaff7edca2d9bc81686a636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 08/80] fix: SubsetTuner clears the queued steps when the
 suggested position is reached

---
 qtune/parameter_tuner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 817c27e..e0a943a 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -273,6 +273,9 @@ class SubsetTuner(ParameterTuner):
                 self._number_queued_steps = min(number_of_steps, self._maximal_step_number)
             self._number_queued_steps -= 1
             step *= self._maximal_step_size / np.linalg.norm(step)
+        else:
+            # the suggested position is reached with this step and must be evaluated
+            self._number_queued_steps = 0
 
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
-- 
2.43.0


From 6264bf54d9c8cb4105e576e440a87e1688752e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 09/80] fix: restarting updates the last voltages and the
 positions of the gradient estimators

---
 qtune/gradient.py        | 3 ++-
 qtune/parameter_tuner.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index bfdf375..79a3578 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -44,7 +44,8 @@ class GradientEstimator(metaclass=HDF5Serializable):
 
     @current_position.setter
     def current_position(self, new_positions: pd.Series):
-        index_intersection = new_positions.index.intersection(self.current_position)
+        index_intersection = new_positions.index.intersection(self._current_position.index)
+        self._current_position = self._current_position.copy()
         self._current_position[index_intersection] = new_positions[index_intersection]
 
     def change_position(self, new_position: pd.Series):
diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index e0a943a..063ae07 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -107,7 +107,9 @@ class ParameterTuner(metaclass=HDF5Serializable):
         if self.last_voltages is None or self.last_voltages.empty:
             self._last_voltage = new_voltages
         else:
-            index_intersection = self.last_voltages.index.intersection(new_voltages)
+            index_intersection = self.last_voltages.index.intersection(new_voltages.index)
+            # the previous object may be stored elsewhere i.e. in the tuned voltages
+            self._last_voltage = self._last_voltage.copy()
             self._last_voltage[index_intersection] = new_voltages[index_intersection]
 
     @property
-- 
2.43.0


From 8d399d32a90f85f0b0194e64865b77ef17ab7df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 10/80] fix: restart and change_targets re-evaluate the first
 ParameterTuner before new voltages are calculated

---
 qtune/autotuner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index cfed351..b0e6841 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -216,6 +216,7 @@ class Autotuner(metaclass=HDF5Serializable):
         for i, target_change in enumerate(target_changes):
             self.tuning_hierarchy[i].target = target_change
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
 
     def __getstate__(self):
@@ -294,6 +295,7 @@ class Autotuner(metaclass=HDF5Serializable):
         """ Reads new voltages and communicates them to the member classes. This function can be called when the
         experiment has been configured manually."""
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
         current_voltages = self._experiment.read_gate_voltages()
         for par_tuner in self.tuning_hierarchy:
-- 
2.43.0


From 02a74c14aedea13c116e9eeda709ce8582c5fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 11/80] fix: SubsetTuner discards queued steps on restart

---
 qtune/parameter_tuner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 063ae07..1804bb3 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -282,6 +282,11 @@ class SubsetTuner(ParameterTuner):
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
 
+    def restart(self, new_voltages):
+        # the queued steps belong to the voltages before the restart
+        self._number_queued_steps = 0
+        super().restart(new_voltages)
+
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
-- 
2.43.0


From 98e99524a92b7534965d0fd36b9934cd499dcf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 12/80] fix: SelfInitializingKalmanEstimator hands over to and
 restarts its Kalman estimator

---
 qtune/gradient.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 79a3578..05627ad 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -400,7 +400,7 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
         finite_differences_estimator = FiniteDifferencesGradientEstimator(current_position=current_position,
                                                                           epsilon=epsilon,
                                                                           symmetric=symmetric)
-        kalman_arguments = dict(maximum_covariance=maximum_covariance)
+        kalman_arguments = dict(maximum_covariance=maximum_covariance, epsilon=epsilon)
 
         return cls(finite_difference_estimator=finite_differences_estimator,
                    kalman_arguments=kalman_arguments)
@@ -453,13 +453,18 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
             kalman_gradient = KalmanGradient(n_pos_dim=initial_estimate.size,
                                              n_values=1,
                                              initial_gradient=initial_estimate,
-                                             initial_covariance_matrix=self.finite_difference_estimator.covariance()
-                                             **self._kalman_gradient_arguments)
+                                             initial_covariance_matrix=self.finite_difference_estimator.covariance(),
+                                             **(self._kalman_gradient_arguments or {}))
             self._kalman_estimator = KalmanGradientEstimator(kalman_gradient=kalman_gradient,
                                                              current_position=position[initial_estimate.index],
                                                              current_value=value,
                                                              **self._kalman_arguments)
 
+    def restart(self, new_position):
+        self.finite_difference_estimator.restart(new_position)
+        if self.kalman_estimator:
+            self.kalman_estimator.restart(new_position)
+
     def to_hdf5(self):
         return dict(finite_difference_estimator=self._finite_difference_estimator,
                     kalman_estimator=self._kalman_estimator,
-- 
2.43.0


From ea109077de6cf5095a80edfb35dd7a3b44bff67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 13/80] fix: SensingDotTuner stores its tuned voltages and
 whether its last evaluation failed

---
 qtune/parameter_tuner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 1804bb3..a21ae10 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -415,4 +415,7 @@ class SensingDotTuner(ParameterTuner):
                     last_voltage=self._last_voltage,
                     last_parameter_values=self._last_parameter_values,
                     last_parameters_variances=self._last_parameters_variances,
+                    tuned_voltages=self._tuned_voltages,
+                    last_evaluation_failed=self._last_evaluation_failed,
+                    evaluatable_voltages=self._evaluatable_voltages,
                     cheap_evaluation_only=self.cheap_evaluation_only)
-- 
2.43.0


From af185db6c2ef2c9cd7e2dc03644be4f44e74202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 14/80] fix: evaluators store all their constructor arguments
 (flank, sample rate, transition width)

---
 qtune/evaluator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 008e6d9..3a38da0 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -199,6 +199,7 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
+                    sample_rate=self.sample_rate,
                     evaluation_arguments=self.evaluation_arguments)
 
 
@@ -574,7 +575,7 @@ class LeadTransition(Evaluator):
                     transition_positions=self.transition_positions,
                     shifting_gates=self._shifting_gates,
                     charge_diagram_width=self._charge_diagram_width,
-                    transition_width=.2e-3)
+                    transition_width=self.transition_width)
 
 
 class SensingDot1D(Evaluator):
@@ -661,7 +662,8 @@ class SensingDot1D(Evaluator):
                     sweeping_gate=self._sweeping_gate,
                     current_signal=self.current_signal,
                     optimal_signal=self.optimal_signal,
-                    optimal_position=self.optimal_position)
+                    optimal_position=self.optimal_position,
+                    rising_flank=self._rising_flank)
 
 
 class SensingDot2D(Evaluator):
@@ -765,7 +767,8 @@ class SensingDot2D(Evaluator):
         return dict(super().to_hdf5(),
                     sweeping_gates=self._sweeping_gates,
                     scan_range=self._scan_range,
-                    new_voltages=self._new_voltages)
+                    new_voltages=self._new_voltages,
+                    rising_flank=self._rising_flank)
 
 
 class AveragingEvaluator(Evaluator):
-- 
2.43.0


From 4b0ce2eceacedc9ffa1c87b7243545ac3144e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 15/80] fix: a reloaded Autotuner continues in the storage path
 of the saved one

---
 qtune/autotuner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index b0e6841..fa8fca5 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -309,6 +309,7 @@ class Autotuner(metaclass=HDF5Serializable):
             current_tuner_status=self._current_tuner_status,
             voltage_to_set=self._voltages_to_set,
             hdf5_storage_path=self._hdf5_storage_path,
+            append_time_to_path=False,  # the path already contains the time
             last_save_file=self.last_save_file
         )
 
-- 
2.43.0


From 12fcf53b7938bc1dca21d153a531936ddbb34a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 16/80] fix: SensingDot1D evaluates the current signal at an
 integer index

---
 qtune/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 3a38da0..77c834b 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -653,7 +653,7 @@ class SensingDot1D(Evaluator):
             steepest_point = np.argmin(derivative_approximation[cutoff:-cutoff])
             self.optimal_signal = np.min(derivative_approximation)
         self.optimal_position = raw_x_data[steepest_point + cutoff]
-        self.current_signal = derivative_approximation[0.5 * self.measurements[0].options['N_points']]
+        self.current_signal = derivative_approximation[int(0.5 * self.measurements[0].options['N_points'])]
 
         return self.current_signal, self.optimal_signal, self.optimal_position
 
-- 
2.43.0


From 4a53478255e69a759300fb68462a509ae602be63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 17/80] fix: detune_simulation passes an integer number of
 points to linspace

---
 qtune/basic_dqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/basic_dqd.py b/qtune/basic_dqd.py
index 6ab8e3e..db1dca8 100644
--- a/qtune/basic_dqd.py
+++ b/qtune/basic_dqd.py
@@ -133,7 +133,7 @@ def detune_simulation(gate_voltages, measurement: Measurement, simulation_option
     right_gate = simulation_options["right_gate"]
     parameters = measurement.options.copy()
     parameters['file_name'] = "detune_scan_" + measurement.get_file_name()
-    parameters['N_points'] = float(parameters['N_points'])
+    parameters['N_points'] = int(parameters['N_points'])
     parameters['N_average'] = float(parameters['N_average'])
 
     x = np.linspace(parameters["center"] - parameters["range"], parameters["center"] + parameters["range"],
-- 
2.43.0


From db9b5392844ad1205fed88a130439e771fe0d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 18/80] fix: NelderMeadSolver can be used by the tuners and
 stored (signature, state and default cost function)

---
 qtune/solver.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index b2f8a0a..fd868d6 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -285,14 +285,14 @@ class NelderMeadSolver(Solver):
                  current_values: pd.Series,
                  reflected_point: Optional[Tuple[pd.Series, pd.Series]] = None,
                  shrunk_points: Optional[Sequence[Tuple[pd.Series, pd.Series]]] = None,
-                 cost_function: Callable = lambda v: np.sum(v * v),
+                 cost_function: Optional[Callable] = None,
                  state='built_up'):
         """
 
         :param target:
         :param simplex:
         :param span: Used to build up the initial simplex
-        :param cost_function:
+        :param cost_function: By default the sum of squares. Only the default can be stored in the HDF5 library.
         :param current_position:
         """
         if 'desired' not in target:
@@ -345,7 +345,7 @@ class NelderMeadSolver(Solver):
         if self._cost_function:
             return self._cost_function(values)
         else:
-            np.sum(values * values)
+            return np.sum(values * values)
 
     def get_costs(self):
         return [self.cost_function(values) for _, values in self.simplex]
@@ -370,7 +370,7 @@ class NelderMeadSolver(Solver):
         self._simplex = self._get_sorted_simplex()
         self._simplex.pop()
 
-    def suggest_next_position(self) -> pd.Series:
+    def suggest_next_position(self, tuned_parameters=None) -> pd.Series:
         positions = self.get_positions()
         worst_position = positions[-1]
 
@@ -502,7 +502,7 @@ class NelderMeadSolver(Solver):
                     reflected_point=self._reflected_point,
                     shrunk_points=self._shrunk_points,
                     cost_function=self._cost_function,
-                    state=str(self._state))
+                    state=self._state.value)
 
 
 class ForwardingSolver(Solver):
-- 
2.43.0


From bbc0bcf709f9694d8c398a873c63ba5cda52920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 19/80] fix: NelderMeadSolver concludes its iterations and
 replaces the worst point(s)

---
 qtune/solver.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index fd868d6..3c4e8e0 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -366,15 +366,17 @@ class NelderMeadSolver(Solver):
         return sorted(self.simplex, key=get_entry_cost)
 
     def _insert_into_simplex(self, position, values):
-        self._simplex.append((position, values))
+        """Replaces the worst point which concludes the iteration."""
+        self._simplex[-1] = (position, values)
         self._simplex = self._get_sorted_simplex()
-        self._simplex.pop()
+        self._state = self.State.start_iteration
 
     def suggest_next_position(self, tuned_parameters=None) -> pd.Series:
         positions = self.get_positions()
         worst_position = positions[-1]
 
-        m = pd.DataFrame(positions).mean(axis=0)
+        # centroid of all points but the worst
+        m = pd.DataFrame(positions[:-1]).mean(axis=0)
         r = 2 * m - worst_position
         s = m + 2 * (m - worst_position)
         c = m + (r - m) / 2
@@ -476,9 +478,11 @@ class NelderMeadSolver(Solver):
             self._shrunk_points.append((position, values))
 
             if len(self._shrunk_points) == len(self._current_position):
-                for shrink_point in self._shrunk_points:
-                    self._insert_into_simplex(*shrink_point)
+                # all points but the best are replaced
+                self._simplex[1:] = self._shrunk_points
+                self._simplex = self._get_sorted_simplex()
                 self._shrunk_points = []
+                self._state = self.State.start_iteration
 
         else:
             # we just got a point without requesting it
@@ -490,7 +494,8 @@ class NelderMeadSolver(Solver):
 
             self._state = self.State.start_iteration
 
-        self._current_position = position
+        # the current position can be changed in place
+        self._current_position = position.copy()
         self._current_values = values
 
     def to_hdf5(self):
-- 
2.43.0


From ad63d697eaa15f2e5a36784795c012f2c98abaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 20/80] fix: the target of the NelderMeadSolver can be changed

---
 qtune/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 3c4e8e0..24a02a7 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -328,10 +328,6 @@ class NelderMeadSolver(Solver):
                    current_values=current_values,
                    simplex=simplex)
 
-    @property
-    def target(self):
-        return self._target
-
     @property
     def simplex(self) -> Deque[Tuple[pd.Series, pd.Series]]:
         """Sorted chronologically if state=built_up otherwise sorted by cost"""
@@ -372,6 +368,10 @@ class NelderMeadSolver(Solver):
         self._state = self.State.start_iteration
 
     def suggest_next_position(self, tuned_parameters=None) -> pd.Series:
+        if self._state == self.State.start_iteration:
+            # the costs depend on the target which can be changed
+            self._simplex = self._get_sorted_simplex()
+
         positions = self.get_positions()
         worst_position = positions[-1]
 
-- 
2.43.0


From db03186e342d3f6d9d067b0a7bc09c222f114d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 21/80] fix: NelderMeadSolver does not insert the initial
 position twice into its simplex

---
 qtune/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 24a02a7..f75483e 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -417,7 +417,9 @@ class NelderMeadSolver(Solver):
         values = values[self._current_values.index]
 
         if len(self.simplex) < len(self.current_position) + 1:
-            self.simplex.append((position, values))
+            # the initial position is evaluated again by the tuner and must not degenerate the simplex
+            self._simplex = [(pos, val) for pos, val in self._simplex if not np.allclose(pos, position, rtol=1e-12, atol=0)]
+            self._simplex.append((position, values))
 
             if len(self.simplex) == len(self.current_position) + 1:
                 self._simplex = self._get_sorted_simplex()
-- 
2.43.0


From 64dabdc0abc36b0fdc2da747c466734f62065554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 22/80] fix: History returns the gradients and covariances of
 exactly the requested parameter

---
 qtune/history.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index c074e76..c596fca 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -209,8 +209,8 @@ class History:
         :param parameter_name: Parameter of the gradient of interest.
         :return: Gradient history.
         """
-        regex = re.compile(self._gradient_name.format(parameter_name=parameter_name,
-                                                      gate_name=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_name.format(parameter_name=re.escape(parameter_name),
+                                                            gate_name=r'([^#]+)') + '$')
         return self._data_frame.filter(regex=regex).rename(lambda name: regex.findall(name)[0], axis='columns')
 
     def get_gradient_covariances(self, parameter_name) -> pd.DataFrame:
@@ -219,13 +219,13 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: Gradient covariance history.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'([\w\s\d]+)',
-                                                                 gate_name_2=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'([^#]+)',
+                                                                       gate_name_2=r'([^#]+)') + '$')
         df = self._data_frame.filter(regex=regex)
         df = df[sorted(df.columns, key=regex.findall)]
-
-        return pd.DataFrame(df, columns=pd.MultiIndex.from_tuples(map(regex.findall, df.columns)))
+        df.columns = pd.MultiIndex.from_tuples([regex.findall(name)[0] for name in df.columns])
+        return df
 
     def get_gradient_variances(self, parameter_name) -> pd.DataFrame:
         """
@@ -233,9 +233,9 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: History of the diagonal of the covariance matrix.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'(?P<gatename>[\w\s\d]+)',
-                                                                 gate_name_2=r'(?P=gatename)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'(?P<gatename>[^#]+)',
+                                                                       gate_name_2=r'(?P=gatename)') + '$')
         return self._data_frame.filter(regex=regex).rename(columns=lambda name: regex.search(name).group('gatename'))
 
     def read_autotuner_to_data_frame(self, autotuner: qtune.autotuner.Autotuner, start: int = 0,
-- 
2.43.0


From 1fd2d7cea6bbb10497c2c3dc130992d5c79100a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 23/80] fix: History accepts autotuners whose gradients are not
 estimated yet

---
 qtune/history.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index c596fca..65223b9 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -559,12 +559,13 @@ def extract_gradients_from_hierarchy(tuning_hierarchy) -> (Dict[str, pd.Series],
     for tuner in tuning_hierarchy:
         if isinstance(tuner.solver, qtune.solver.NewtonSolver):
             for i, grad_est in enumerate(tuner.solver.gradient_estimators):
+                gates = grad_est.current_position.index
                 if grad_est.estimate() is None:
-                    gradients[tuner.solver.target.index[i]] = pd.Series
+                    gradients[tuner.solver.target.index[i]] = pd.Series(np.nan, index=gates)
                 else:
                     gradients[tuner.solver.target.index[i]] = grad_est.estimate()
                 if grad_est.covariance() is None:
-                    covariances[tuner.solver.target.index[i]] = pd.Series
+                    covariances[tuner.solver.target.index[i]] = pd.DataFrame(np.nan, index=gates, columns=gates)
                 else:
                     covariances[tuner.solver.target.index[i]] = grad_est.covariance()
     return gradients, covariances
-- 
2.43.0


From 989056c6d6d407abba71ed742b9c9f0ad65c2184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 24/80] fix: GUI logs with its logger instead of the name of
 the logger

---
 qtune/gui.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 41ac735..71dc341 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -684,13 +684,13 @@ class GUI(QtWidgets.QMainWindow):
 
     def _join_worker(self):
         if self._thread.is_alive():
-            self._logger.info('Joining thread')
+            self.logger.info('Joining thread')
         self._stop = True
         self._thread.join()
 
     def restart_thread(self):
         self._join_worker()
-        self._logger.info('Restarting thread')
+        self.logger.info('Restarting thread')
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
@@ -707,7 +707,7 @@ class GUI(QtWidgets.QMainWindow):
                     try:
 
                         if self.auto_tuner.is_tuning_complete():
-                            self._logger.info('Tuning completed')
+                            self.logger.info('Tuning completed')
                             self.pause()
                         else:
                             self.auto_tuner.iterate()
@@ -718,10 +718,10 @@ class GUI(QtWidgets.QMainWindow):
                             self._update_plots.emit()
 
                     except Exception:
-                        self._logger.exception('Error during auto tuner iteration: Pausing...')
+                        self.logger.exception('Error during auto tuner iteration: Pausing...')
                         self.pause()
                 else:
-                    self._logger.error('No Autotuner: Pausing...')
+                    self.logger.error('No Autotuner: Pausing...')
                     self.pause()
 
                 self._stepped = False
@@ -731,14 +731,14 @@ class GUI(QtWidgets.QMainWindow):
 
     def start(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
         elif self._continuous:
-            self._logger.info('Already started')
+            self.logger.info('Already started')
 
         else:
-            self._logger.info('Starting worker thread')
+            self.logger.info('Starting worker thread')
 
         self._continuous = True
         self._start_btn.setEnabled(False)
@@ -747,19 +747,19 @@ class GUI(QtWidgets.QMainWindow):
 
     def step(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
-        self._logger.info('Order worker to do one step')
+        self.logger.info('Order worker to do one step')
         self._stepped = True
 
     def pause(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread already dead')
+            self.logger.warning('Worker thread already dead')
         elif self._continuous:
-            self._logger.info('Pausing worker thread')
+            self.logger.info('Pausing worker thread')
         elif not self._stepped:
-            self._logger.info('Already paused')
+            self.logger.info('Already paused')
 
         self._continuous = False
         self._stepped = False
-- 
2.43.0


From 44c23ea2bf0a15199bcb0b7c76e5fe64d6f32b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 25/80] fix: closing the GUI stops the worker during continuous
 tuning

---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 71dc341..25a7d46 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -702,7 +702,7 @@ class GUI(QtWidgets.QMainWindow):
             while not (self._stop or self._continuous or self._stepped):
                 time.sleep(0.05)
 
-            while self._continuous or self._stepped and not self._stop:
+            while (self._continuous or self._stepped) and not self._stop:
                 if self.auto_tuner:
                     try:
 
-- 
2.43.0


From 1762838ecbce0e8fd099cb3c78b038ee516e9517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 26/80] fix: translation of negative indices and slices to
 MATLAB

---
 qtune/mat2py.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qtune/mat2py.py b/qtune/mat2py.py
index 9124f58..6de5f88 100644
--- a/qtune/mat2py.py
+++ b/qtune/mat2py.py
@@ -73,7 +73,7 @@ def _set_field(eval_str, field, val_str):
 
 def _transform_int(py_idx):
     if py_idx < 0:
-        return 'end - %d' % abs(py_idx)
+        return 'end - %d' % (abs(py_idx) - 1)
     else:
         return str(py_idx + 1)
 
@@ -94,17 +94,17 @@ def _transform_slice(python_slice):
     
     if python_slice.start is None:
         start = '1' if step > 0 else 'end'
-    elif idx.start < 0:
-        start = '(end - %d)' % abs(python_slice.start)
+    elif python_slice.start < 0:
+        start = '(end - %d)' % (abs(python_slice.start) - 1)
     else:
-        start = str(python_slice.start + 1 if step > 0 else python_slice.start)
+        start = str(python_slice.start + 1)
     
     if python_slice.stop is None:
         stop = 'end' if step > 0 else '1'
     elif python_slice.stop < 0:
-        stop = '(end - %d)' % abs(python_slice.stop)
+        stop = '(end - %d)' % (abs(python_slice.stop) if step > 0 else abs(python_slice.stop) - 2)
     else:
-        stop = str(python_slice.stop if step > 0 else python_slice.stop + 1)
+        stop = str(python_slice.stop if step > 0 else python_slice.stop + 2)
     
     return '%s:%d:%s' % (start, step, stop)
 
-- 
2.43.0


From 9fd29ee6d4b1102d672b7b0eafdf8790a03f85bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 27/80] fix: qtune.sm can be imported and converts numpy
 scalars and tuples

---
 qtune/sm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index c7cfa07..39b50d9 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -148,11 +148,11 @@ class SpecialMeasureMatlab:
 
             return self.engine.transpose(casted)
         elif isinstance(obj, np.generic):
-            return float(np.asscalar(obj))
+            return float(obj.item())
         elif isinstance(obj, List):
             return [self.to_matlab(x) for x in obj]
         elif isinstance(obj, Tuple):
-            return (self.to_matlab(x) for x in obj)
+            return tuple(self.to_matlab(x) for x in obj)
         elif isinstance(obj, Dict):
             return {x: self.to_matlab(obj[x]) for x in obj}
         elif isinstance(obj, Set):
@@ -225,7 +225,7 @@ class LegacyDQDRefactored(BasicDQD):
 
 
 class MatlabEvaluator(Evaluator):
-    def __init__(self, experiment: qtune.sm.LegacyDQDRefactored, **kwargs):
+    def __init__(self, experiment: LegacyDQDRefactored, **kwargs):
         super().__init__(experiment, **kwargs)
 
     def evaluate(self):
-- 
2.43.0


From 996a9f6ed4130ab7278442d85f02dc41a2f573ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 28/80] fix: the state of the ForwardingSolver is a property
 like the state of all solvers

---
 qtune/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/solver.py b/qtune/solver.py
index f75483e..4663714 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -555,6 +555,7 @@ class ForwardingSolver(Solver):
             values.index.intersection(self._values_to_position.index)].dropna()
         self._next_position[new_position_names] = values[new_position_names.index]
 
+    @property
     def state(self):
         return pd.Series()
 
-- 
2.43.0


From 1069fa1c50fa929f6b3c683679d74345799ad21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 29/80] fix: covariance of finite differences accounts for the
 variance of the shared base point

---
 qtune/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qtune/util.py b/qtune/util.py
index a46e05d..4a6ed88 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -189,11 +189,12 @@ def calculate_gradient_non_orthogonal(positions: Sequence[np.ndarray],
 
     if variances:
         if n_points == n_dim + 1:
-            diff_variances = np.stack(variances[1:]) + variances[0]
+            # all differences share the first point and are therefore correlated
+            diff_covariance = np.diag(np.stack(variances[1:])) + variances[0]
         else:
-            diff_variances = np.stack(variances[1::2]) + np.stack(variances[::2])
+            diff_covariance = np.diag(np.stack(variances[1::2]) + np.stack(variances[::2]))
 
-        gradient_covariance = inverted_volt_diffs.T @ np.diag(diff_variances) @ inverted_volt_diffs
+        gradient_covariance = inverted_volt_diffs.T @ diff_covariance @ inverted_volt_diffs
         return gradient, gradient_covariance
 
     return gradient
-- 
2.43.0


From b6d9b852f4bf6040ccbb648333d9635f3ca0ed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 30/80] fix: linearly dependent voltage points are rejected in
 spite of rounding errors

---
 qtune/util.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/qtune/util.py b/qtune/util.py
index 4a6ed88..5f6a02d 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -129,6 +129,16 @@ def find_stepes_point_sensing_dot(data: np.ndarray, scan_range=5e-3, npoints=128
     return detuning
 
 
+def _invert_voltage_diff(voltage_diff: np.ndarray) -> np.ndarray:
+    """Linearly dependent differences are not always exactly singular due to rounding errors"""
+    try:
+        if np.linalg.matrix_rank(voltage_diff) < voltage_diff.shape[0]:
+            raise np.linalg.LinAlgError('The voltage points are linearly dependent.')
+        return np.linalg.inv(voltage_diff)
+    except np.linalg.LinAlgError as err:
+        raise EvaluationError() from err
+
+
 # def gradient_min_evaluations(parameters: List(np.ndarray, ...), voltage_points: List(np.ndarray, ...)):
 def gradient_min_evaluations(parameters, voltage_points):
     """
@@ -150,11 +160,7 @@ def gradient_min_evaluations(parameters, voltage_points):
     else:
         raise RuntimeError("Invalid number of points", parameters, voltage_points)
 
-    try:
-        gradient = np.dot(parameter_diff, np.linalg.inv(voltage_diff))
-    except np.linalg.LinAlgError as err:
-        raise EvaluationError() from err
-    return gradient
+    return np.dot(parameter_diff, _invert_voltage_diff(voltage_diff))
 
 
 def calculate_gradient_non_orthogonal(positions: Sequence[np.ndarray],
@@ -180,10 +186,7 @@ def calculate_gradient_non_orthogonal(positions: Sequence[np.ndarray],
     else:
         raise RuntimeError("Invalid number of points", positions, values)
 
-    try:
-        inverted_volt_diffs = np.linalg.inv(voltage_diff)
-    except np.linalg.LinAlgError as err:
-        raise EvaluationError() from err
+    inverted_volt_diffs = _invert_voltage_diff(voltage_diff)
 
     gradient = parameter_diff @ inverted_volt_diffs
 
-- 
2.43.0


From 9cf1ff99387ea05382da3ced17f9826b8b58c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 31/80] fix: finite differences do not mix measurements from
 before and after a restart

---
 qtune/gradient.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 05627ad..20c3c70 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -221,6 +221,12 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
             self._current_estimate = gradient
             self._covariance = covariance
 
+    def restart(self, new_position):
+        if self._current_estimate is None:
+            # differences between measurements before and after a manual change are meaningless
+            self._stored_measurements = []
+        super().restart(new_position)
+
     def to_hdf5(self):
         return dict(current_position=self._current_position,
                     epsilon=self._epsilon,
-- 
2.43.0


From cc87f500054e67a86ba288b4102ad7c1179ab344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 32/80] fix: Kalman estimator requests measurements within the
 null space for different step sizes per gate

---
 qtune/gradient.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 20c3c70..2482954 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -333,12 +333,12 @@ class KalmanGradientEstimator(GradientEstimator):
             max_covariance = self._maximum_covariance.max()
             directional_covariances = [v.T * self._kalman_gradient.cov * v for v in filled_nullvectors]
             if np.any(np.array(directional_covariances) > max_covariance):
+                direction = np.array(filled_nullvectors[np.argmax(directional_covariances)]).astype(float).ravel()
+                # scaling the entries individually would leave the null space
+                step = direction / np.linalg.norm(direction / self._epsilon)
                 self.logger.info('New measurement required by kalman gradient estimator.')
-                self.logger.debug(self._epsilon * np.squeeze(
-                        np.array(filled_nullvectors[np.argmax(directional_covariances)]).astype(float)))
-                return self._current_position.add(
-                    self._epsilon * np.squeeze(
-                        np.array(filled_nullvectors[np.argmax(directional_covariances)]).astype(float)), fill_value=0.)
+                self.logger.debug(step)
+                return self._current_position.add(pd.Series(step, index=self._current_position.index), fill_value=0.)
 
     def update(self,
                position: pd.Series,
-- 
2.43.0


From 0796854cae896fbbe2236ec278235f8719a34f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 33/80] fix: repeated measurement at the same position replaces
 the previous one in finite differences

---
 qtune/gradient.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 2482954..0d496f9 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -196,6 +196,13 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 # the base point is not part of any symmetric pair
                 return
 
+            for i, (stored_position, *_) in enumerate(self._stored_measurements):
+                if np.allclose(position[self._current_position.index], stored_position.astype(float),
+                               rtol=0, atol=1e-9 * self._epsilon.abs().min()):
+                    # a repeated measurement contains no further information about the gradient
+                    self._stored_measurements[i] = (stored_position, value, variance)
+                    return
+
             self._stored_measurements.append((position[self._current_position.index], value, variance))
 
             positions, values, variances = zip(*self._stored_measurements)
-- 
2.43.0


From 1607c9bb59985a6d5f30aa8e40d43d1be0a24917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 34/80] fix: tunings with the Nelder-Mead solver can be
 restarted and queue partial steps

---
 qtune/solver.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 4663714..3409e7c 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -300,7 +300,8 @@ class NelderMeadSolver(Solver):
         self._target = target
         self._simplex = list(simplex)
 
-        self._current_position = current_position
+        # the current position can be changed in place but may be part of the simplex
+        self._current_position = current_position.copy()
         self._current_values = current_values[self.target.desired.index]
 
         self._span = span[current_position.index]
@@ -346,10 +347,6 @@ class NelderMeadSolver(Solver):
     def get_costs(self):
         return [self.cost_function(values) for _, values in self.simplex]
 
-    @property
-    def current_position(self) -> pd.Series:
-        return self._current_position
-
     @property
     def current_values(self) -> pd.Series:
         return self._current_values
@@ -500,6 +497,14 @@ class NelderMeadSolver(Solver):
         self._current_position = position.copy()
         self._current_values = values
 
+    def restart(self, new_position):
+        # the values of the old simplex do not belong to the manually changed voltages
+        self._simplex = []
+        self._reflected_point = None
+        self._shrunk_points = []
+        self._state = self.State.build_up
+        super().restart(new_position)
+
     def to_hdf5(self):
         return dict(target=self._target,
                     simplex=self._simplex,
-- 
2.43.0


From 3c480d022f3199e3365a30044ff45e9346671205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:14 +0000
Subject: [PATCH 35/80] fix: several objects with reserved objects can be
 stored in one file

---
 qtune/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 42337cb..b77c983 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -181,7 +181,8 @@ def to_hdf5(filename_or_handle: Union[str, h5py.Group], name: str, obj,
     serialized = dict()
 
     for key, value in reserved.items():
-        dset = root.create_dataset(name=key, dtype='f')
+        # several objects can be stored in one file
+        dset = root[key] if key in root else root.create_dataset(name=key, dtype='f')
         serialized[id(value)] = dset
         dset.attrs["#type"] = "#reserved"
 
-- 
2.43.0


From 3691177530ad4c1843a5f01c3bc7ac6f1cfd22e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 36/80] fix: tuners with parameters that are only kept
 invariant can be reloaded

---
 qtune/parameter_tuner.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index a21ae10..eda69fa 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -59,6 +59,10 @@ class ParameterTuner(metaclass=HDF5Serializable):
         self._last_evaluation_failed = last_evaluation_failed
         self._evaluatable_voltages = evaluatable_voltages or []
 
+        # parameters which are only kept invariant have no values
+        relevant_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
+                                          axis='columns').dropna().index
+
         if last_parameter_values is None:
             not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
                                             axis='columns').dropna().index
@@ -71,7 +75,7 @@ class ParameterTuner(metaclass=HDF5Serializable):
             # storage_path = r'D:\debug_%d.txt' % random.randint(0,10000)
             # with open(storage_path, 'wb') as file:
             #     file.write(data)
-            assert set(self.target.dropna(how='all').index).issubset(set(last_parameter_values.index))
+            assert set(relevant_index).issubset(set(last_parameter_values.index))
             self._last_parameter_values = last_parameter_values
 
             # import os
@@ -82,7 +86,7 @@ class ParameterTuner(metaclass=HDF5Serializable):
                                             axis='columns').dropna().index
             self._last_parameters_variances = pd.Series(index=not_na_index)
         else:
-            assert set(self.target.index).issubset(set(last_parameters_variances.index))
+            assert set(relevant_index).issubset(set(last_parameters_variances.index))
             self._last_parameters_variances = last_parameters_variances
 
         self._evaluators = tuple(evaluators)
-- 
2.43.0


From fedb8cc0b50fa1a5c53676ec15682e4a098571eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 37/80] fix: AsynchronousHDF5Writer.join does not deadlock if a
 pending write fails

---
 qtune/storage.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index b77c983..99945c4 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -360,7 +360,6 @@ class AsynchronousHDF5Writer:
         """Stop writing and join thread."""
         if self._worker.is_alive():
             self._queue.put(None)
-            self._queue.join()
 
         elif self._queue.qsize():
             warnings.warn("Storage queue contains data but the writer worker is already dead.")
-- 
2.43.0


From 97a7c6412c934e8c141cc87c0b8f1cbe21490796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 38/80] fix: experiments are recognized as reserved objects by
 the multiprocessing writer

---
 qtune/experiment.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qtune/experiment.py b/qtune/experiment.py
index 82646e4..543e41f 100644
--- a/qtune/experiment.py
+++ b/qtune/experiment.py
@@ -54,6 +54,10 @@ class Measurement(metaclass=HDF5Serializable):
         return "{type}({data})".format(type=type(self), data=self.to_hdf5())
 
 
+class _ExperimentId(int):
+    """Stands in for a copied experiment. In contrast to plain integers its identity is preserved by pickle."""
+
+
 class Experiment:
     """
     Basic class implementing the structure of an experiment consisting of gates whose voltages can be set and read.
@@ -88,4 +92,4 @@ class Experiment:
         raise NotImplementedError()
 
     def __deepcopy__(self, memodict={}):
-        return id(self)
+        return _ExperimentId(id(self))
-- 
2.43.0


From 75e3e044b01d03b2037fef87cc847345f56d5cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:25 +0000
Subject: [PATCH 39/80] fix: the history does not repeat values of previous
 voltages which were not evaluated

---
 qtune/history.py         | 18 +++++++++++++++---
 qtune/parameter_tuner.py | 10 ++++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 65223b9..1dcb5de 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -545,8 +545,17 @@ def extract_parameters_from_hierarchy(tuning_hierarchy) -> (pd.Series, pd.Series
         if isinstance(par_tuner, qtune.parameter_tuner.SubsetTuner):
             relevant_parameters = par_tuner.solver.target.desired.index[
                 ~par_tuner.solver.target.desired.apply(np.isnan)]
-            parameters = parameters.append(parameter[relevant_parameters])
-            variances = variances.append(variance[relevant_parameters])
+            parameter, variance = parameter[relevant_parameters], variance[relevant_parameters]
+            if not par_tuner.last_voltages_evaluated:
+                # the last values belong to previous voltages
+                parameter, variance = parameter * np.nan, variance * np.nan
+            parameters = parameters.append(parameter)
+            variances = variances.append(variance)
+        elif isinstance(par_tuner, qtune.parameter_tuner.SensingDotTuner) and par_tuner.cheap_evaluation_only:
+            # the last values of the expensive evaluation belong to previous voltages
+            evaluated = [name for evaluator in par_tuner.cheap_evaluators for name in evaluator.parameters]
+            parameters = parameters.append(parameter.where(parameter.index.isin(evaluated)))
+            variances = variances.append(variance.where(variance.index.isin(evaluated)))
         else:
             parameters = parameters.append(parameter)
             variances = variances.append(variance)
@@ -582,7 +591,7 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
     if end is None:
         end = len(autotuner.tuning_hierarchy)
     relevant_tuner = autotuner.tuning_hierarchy[int(start):end]
-    evaluator_data = pd.DataFrame()
+    evaluator_data = pd.DataFrame(index=[0])
     for par_tuner in relevant_tuner:
         if isinstance(par_tuner, qtune.parameter_tuner.SensingDotTuner):
             relevant_evaluators = par_tuner.cheap_evaluators
@@ -592,6 +601,9 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
                 if evaluator.raw_data is not None:
                     eval_data = evaluator.to_hdf5()
                     evaluator_data[evaluator.name] = [eval_data, ]
+        elif isinstance(par_tuner, qtune.parameter_tuner.SubsetTuner) and not par_tuner.last_voltages_evaluated:
+            # the raw data belong to previous voltages
+            continue
         else:
             for evaluator in par_tuner.evaluators:
                 if evaluator.raw_data is not None:
diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index eda69fa..55a39a0 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -226,6 +226,13 @@ class SubsetTuner(ParameterTuner):
     def tunable_gates(self):
         return self._tunable_gates
 
+    @property
+    def last_voltages_evaluated(self) -> bool:
+        """False if the parameters were not evaluated at the last voltages i.e. in between queued steps."""
+        if self._last_evaluation_failed:
+            return True
+        return bool(self._evaluatable_voltages) and self._evaluatable_voltages[-1].equals(self._last_voltage)
+
     def is_tuned(self, voltages: pd.Series) -> bool:
         """
         Checks if the parameters agree with the target within the tolarance.
@@ -358,6 +365,7 @@ class SensingDotTuner(ParameterTuner):
         return tuple(self._expensive_evaluators)
 
     def is_tuned(self, voltages: pd.Series):
+        self.cheap_evaluation_only = True
         current_parameter, variances = self.evaluate(cheap=True)
         self.solver.rescale_values(current_parameter, variances)
         self._last_voltage = voltages
@@ -370,7 +378,6 @@ class SensingDotTuner(ParameterTuner):
         self._last_evaluation_failed = False
 
         if current_parameter.le(self.target["minimum"]).any():
-            self.cheap_evaluation_only = True
             if current_parameter.le(self.target["cost_threshold"]).any():
                 self.logger.info('Expensive evaluation required.')
                 self.cheap_evaluation_only = False
@@ -382,7 +389,6 @@ class SensingDotTuner(ParameterTuner):
             self.solver.update_after_step(voltages, current_parameter, variances)
             return False
         else:
-            self.cheap_evaluation_only = True
             self._tuned_voltages.append(voltages)
             return True
 
-- 
2.43.0


From 83d344825e6de70e49240c090c0d8021dddb3499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:25 +0000
Subject: [PATCH 40/80] fix: the history records levels that are evaluated
 again at the same voltages

---
 qtune/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 1dcb5de..c827a20 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -310,7 +310,8 @@ class History:
         if voltages.equals(self._data_frame[sorted(self.gate_names)].iloc[-1]):
             # stay in the row
             self._paths_for_reload[-1] = path
-            start = self._data_frame['tuner_index'].iloc[-1]
+            # levels below the stored index are evaluated again after a restart or a vanishing step
+            start = min(self._data_frame['tuner_index'].iloc[-1], max(evaluated_tuner_index - 1, 0))
             new_information = self.read_autotuner_to_data_frame(autotuner, start=start, end=evaluated_tuner_index)
             self._data_frame.loc[self._data_frame.index[-1], new_information.columns] = new_information.iloc[0]
             new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, start=start, end=evaluated_tuner_index)
-- 
2.43.0


From 64606d9c64162fe8661932dc6ff00538cce47675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:25 +0000
Subject: [PATCH 41/80] fix: history.read_files returns the data

---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index c827a20..e80503f 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -116,7 +116,7 @@ def read_files(file_or_files, reserved=None):
 
                 data.append((entry, entry_data))
 
-    return data.sort(key=operator.itemgetter(0))
+    return sorted(data, key=operator.itemgetter(0))
 
 
 class History:
-- 
2.43.0


From beb86e11acd1d701b8eac636cc0e61893f9c4c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:57 +0000
Subject: [PATCH 42/80] fix: reserved objects are found if a single entry of a
 file is loaded

---
 qtune/history.py | 3 ++-
 qtune/storage.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index e80503f..8f4cb62 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -109,7 +109,8 @@ def read_files(file_or_files, reserved=None):
 
     for file_name in files:
         with h5py.File(file_name, 'r') as root:
-            entries = [key for key in root.keys() if not key.startswith('#')]
+            entries = [key for key in root.keys()
+                       if not key.startswith('#') and root[key].attrs.get('#type') != '#reserved']
 
             for entry in entries:
                 entry_data = qtune.storage.from_hdf5(root[entry], reserved)
diff --git a/qtune/storage.py b/qtune/storage.py
index 99945c4..07f828a 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -300,7 +300,8 @@ def from_hdf5(filename_or_handle, reserved):
 
     deserialized = dict()
 
-    for key, value in root.items():
+    # reserved objects are found in the root of the file even if only one entry is loaded
+    for key, value in root.file.items():
         if "#type" in value.attrs and value.attrs["#type"] == "#reserved":
             deserialized[value.id] = reserved[key]
 
-- 
2.43.0


From a298f757a3599d57342dbef5332001aedd35ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 43/80] fix: the sensing dot evaluators use the existing
 np.poly1d

---
 qtune/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 77c834b..1ce541f 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -643,7 +643,7 @@ class SensingDot1D(Evaluator):
         raw_x_data = np.squeeze(raw_data[0])
         raw_y_data = np.squeeze(raw_data[1])
         coef = np.polynomial.polynomial.polyfit(raw_x_data, raw_y_data, deg=10)
-        polynomial_approximation = np.polynomial.poly1d(coef[::-1])
+        polynomial_approximation = np.poly1d(coef[::-1])
         derivative_approximation = np.diff(polynomial_approximation(raw_x_data))
         cutoff = len(raw_x_data) // 16
         if self._rising_flank:
-- 
2.43.0


From 88ecb25dcdfb28751089ed5d966ae5e87d79c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 44/80] fix: sensing dot fits are well conditioned at any
 working point

---
 qtune/evaluator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 1ce541f..b5014f6 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -642,8 +642,8 @@ class SensingDot1D(Evaluator):
     def process_raw_data(self, raw_data):
         raw_x_data = np.squeeze(raw_data[0])
         raw_y_data = np.squeeze(raw_data[1])
-        coef = np.polynomial.polynomial.polyfit(raw_x_data, raw_y_data, deg=10)
-        polynomial_approximation = np.poly1d(coef[::-1])
+        # the fit is carried out in scaled coordinates as it is ill conditioned in absolute voltages
+        polynomial_approximation = np.polynomial.Polynomial.fit(raw_x_data, raw_y_data, deg=10)
         derivative_approximation = np.diff(polynomial_approximation(raw_x_data))
         cutoff = len(raw_x_data) // 16
         if self._rising_flank:
@@ -745,8 +745,7 @@ class SensingDot2D(Evaluator):
 
         differentiated_approximation = np.zeros(shape=(raw_y_data.shape[0], raw_y_data.shape[1] - 1))
         for i, data_line in enumerate(raw_y_data):
-            coef = np.polynomial.polynomial.polyfit(raw_x_data[1], data_line, deg=40)
-            poly = np.poly1d(coef[::-1])
+            poly = np.polynomial.Polynomial.fit(raw_x_data[1], data_line, deg=40)
             differentiated_approximation[i] = np.diff(poly(raw_x_data[1]))
         cutoff = raw_x_data[1].size // 25
         if self._rising_flank:
-- 
2.43.0


From 35d659379ec81cda4349000c4baa885fb45b8ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 45/80] fix: SensingDot2D selects the flank that is asked for

---
 qtune/evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index b5014f6..93f518f 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -749,10 +749,10 @@ class SensingDot2D(Evaluator):
             differentiated_approximation[i] = np.diff(poly(raw_x_data[1]))
         cutoff = raw_x_data[1].size // 25
         if self._rising_flank:
-            steepest_point = np.unravel_index(np.argmin(differentiated_approximation[:, cutoff:-cutoff], axis=None),
+            steepest_point = np.unravel_index(np.argmax(differentiated_approximation[:, cutoff:-cutoff], axis=None),
                                               differentiated_approximation[:, cutoff:-cutoff].shape)
         else:
-            steepest_point = np.unravel_index(np.argmax(differentiated_approximation[:, cutoff:-cutoff], axis=None),
+            steepest_point = np.unravel_index(np.argmin(differentiated_approximation[:, cutoff:-cutoff], axis=None),
                                               differentiated_approximation[:, cutoff:-cutoff].shape)
 
         new_voltages = pd.Series([raw_x_data[0][steepest_point[0]], raw_x_data[1][steepest_point[1] + cutoff]],
-- 
2.43.0


From daa74726c121eef40b336bd45cbf58fe232c7d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 46/80] fix: lead transitions are labelled and evaluated by
 their own scan

---
 qtune/evaluator.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 93f518f..13716c3 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -555,19 +555,20 @@ class LeadTransition(Evaluator):
         error = pd.Series()
         self._raw_x_data = []
         self._raw_y_data = []
-        for data, gate in zip(raw_data, self._shifting_gates):
+        for data, parameter, measurement in zip(raw_data, self.parameters, self.measurements):
             if len(data.shape) == 2:
                 data = data.mean(0)
+            options = measurement.options
             transition_pos = \
-                qtune.util.new_find_lead_transition_index(data, int(.2e-3 / self.measurements[0].options["range"] *
-                                                          self.measurements[0].options["N_points"]))
-            x_data = np.linspace(start=self._measurements[0].options['center'] - self.measurements[0].options['range'],
-                                 stop=self._measurements[0].options['center'] + self.measurements[0].options['range'],
-                                 num=self.measurements[0].options['N_points'])
+                qtune.util.new_find_lead_transition_index(data, int(self.transition_width / options["range"] *
+                                                                    options["N_points"]))
+            x_data = np.linspace(start=options['center'] - options['range'],
+                                 stop=options['center'] + options['range'],
+                                 num=options['N_points'])
             self._raw_x_data.append(x_data)
             self._raw_y_data.append(data)
-            self.transition_positions["position_" + gate] = x_data[transition_pos]
-            error["position_" + gate] = .01e-3**2
+            self.transition_positions[parameter] = x_data[transition_pos]
+            error[parameter] = .01e-3**2
         return self.transition_positions, error
 
     def to_hdf5(self):
-- 
2.43.0


From 48ab6bf6cccefdc3f3a3f9996b5ecc3eb0b313d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 47/80] fix: the shift of a lead transition scan is undone if
 the scan fails

---
 qtune/evaluator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 13716c3..74c3de2 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -541,8 +541,10 @@ class LeadTransition(Evaluator):
         for measurement, shift_gate in zip(self.measurements, self._shifting_gates):
             shift = pd.Series(-1. * self._charge_diagram_width, [shift_gate])
             self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
-            raw_data.append(self.experiment.measure(measurement))
-            self.experiment.set_gate_voltages(current_gate_voltages)
+            try:
+                raw_data.append(self.experiment.measure(measurement))
+            finally:
+                self.experiment.set_gate_voltages(current_gate_voltages)
         transition_positions, error = self.process_raw_data(raw_data=raw_data)
 
         # TODO: this should be obsolete
-- 
2.43.0


From 3effc92782b74e3dbea9c095882080c1af728756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 48/80] fix: fit arguments of previous evaluations are not
 overwritten in place

---
 qtune/evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 74c3de2..cb69a82 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -427,7 +427,7 @@ class InterDotTCByLineScan(FittingEvaluator):
         weights[max(0, position_point - 4):min(position_point + 5, n_points - 1)] = .1
         popt[4] = 130e-6
 
-        self.intermediate_fit_arguments.iloc[:] = popt
+        self.intermediate_fit_arguments = pd.Series(data=popt, index=['offset', 'slope', 'height', 'position', 'width'])
         popt, pcov = optimize.curve_fit(f=func_inter_dot_coupling, p0=popt, sigma=weights, xdata=x_data, ydata=y_data)
         residuals = y_data[int(0.3 * n_points):n_points] - \
             func_inter_dot_coupling(x_data[int(0.3 * n_points):n_points], popt[0], popt[1], popt[2], popt[3],
@@ -491,7 +491,7 @@ class NewLoadTime(FittingEvaluator):
         if popt[2] < 0.:
             p0[2] = self.initial_fit_arguments['curvature'] * 20
             popt, pcov = optimize.curve_fit(f=func_load_time, p0=p0, bounds=bounds, xdata=x_data, ydata=y_data)
-        self._initial_fit_arguments.iloc[:] = p0
+        self._initial_fit_arguments = pd.Series(data=p0, index=['offset', 'height', 'curvature'])
         residuals = y_data - func_load_time(x_data, popt[0], popt[1], popt[2])
         residual = np.nanmean(np.square(residuals)) / (popt[1] * popt[1]) * 1500.
         return pd.Series(data=popt, index=['offset', 'height', 'curvature']), residual
-- 
2.43.0


From e06302cba632a916b5d7a409f6b8fe62c91a70fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 49/80] fix: evaluators name their results after their
 parameters

---
 qtune/evaluator.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index cb69a82..20b00d8 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -159,8 +159,8 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
         t_fall = self._fit_results['t_fall']
         error_t_rise = t_rise / 5.
         error_t_fall = t_fall / 5.
-        return pd.Series([t_rise, t_fall], ['parameter_time_rise', 'parameter_time_fall']), pd.Series(
-            [error_t_rise, error_t_fall], ['parameter_time_rise', 'parameter_time_fall'])
+        return pd.Series([t_rise, t_fall], list(self.parameters)), pd.Series([error_t_rise, error_t_fall],
+                                                                            list(self.parameters))
 
     def process_raw_data(self, raw_data=None):
         if raw_data is None:
@@ -263,8 +263,8 @@ class LeadTunnelTimeByLeadScan(FittingEvaluator):
         t_fall = self._fit_results['t_fall']
         error_t_rise = t_rise / 5.
         error_t_fall = t_fall / 5.
-        return pd.Series([t_rise, t_fall], ['parameter_time_rise', 'parameter_time_fall']), pd.Series(
-            [error_t_rise, error_t_fall], ['parameter_time_rise', 'parameter_time_fall'])
+        return pd.Series([t_rise, t_fall], list(self.parameters)), pd.Series([error_t_rise, error_t_fall],
+                                                                            list(self.parameters))
 
     def process_raw_data(self, raw_data=None):
         if raw_data is None:
@@ -380,8 +380,7 @@ class InterDotTCByLineScan(FittingEvaluator):
         elif len(ydata.shape) > 2:
             self._fit_results = pd.Series(data=np.nan, index=['offset', 'slope', 'height', 'position', 'width'])
             self.logger.error('The Evaluator' + str(self) + 'received measurement data of an invalid dimension.')
-            return pd.Series([np.nan], ["parameter_tunnel_coupling"]), pd.Series([np.nan],
-                                                                                 ["parameter_tunnel_coupling"])
+            return pd.Series([np.nan], list(self.parameters)), pd.Series([np.nan], list(self.parameters))
         else:
             n_points = ydata.size
         self._raw_x_data = np.linspace(self.measurements[0].options['center'] - self.measurements[0].options['range'],
@@ -392,12 +391,10 @@ class InterDotTCByLineScan(FittingEvaluator):
         except RuntimeError:
             self.logger.error('The following evaluator could not evaluate its data: ' + str(self))
             self._fit_results = pd.Series(data=np.nan, index=['offset', 'slope', 'height', 'position', 'width'])
-            return pd.Series([np.nan], ["parameter_tunnel_coupling"]), pd.Series([np.nan],
-                                                                                 ["parameter_tunnel_coupling"])
+            return pd.Series([np.nan], list(self.parameters)), pd.Series([np.nan], list(self.parameters))
         self._fit_results = fitresult
         tc_in_mus = fitresult['width']
-        return pd.Series([tc_in_mus], ["parameter_tunnel_coupling"]), \
-            pd.Series([residual], ["parameter_tunnel_coupling"])
+        return pd.Series([tc_in_mus], list(self.parameters)), pd.Series([residual], list(self.parameters))
 
     def process_raw_data(self, raw_data):
         x_data = raw_data[0]
@@ -476,8 +473,8 @@ class NewLoadTime(FittingEvaluator):
         self._fit_results = fitresult
         self._raw_y_data = data[0, :]
         self._raw_x_data = data[1, :]
-        return pd.Series([fitresult['curvature']], ['parameter_time_load']),\
-            pd.Series([residual], ["parameter_time_load"])
+        return pd.Series([fitresult['curvature']], list(self.parameters)),\
+            pd.Series([residual], list(self.parameters))
 
     def process_raw_data(self, raw_data):
         x_data = raw_data[1, :]
-- 
2.43.0


From 4c0c0102707f5543d3de26235e9362b728a7c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 50/80] fix: failing fits give NaN for every fitting evaluator

---
 qtune/evaluator.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 20b00d8..01db9c8 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -154,7 +154,12 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
         self._raw_y_data = []
         self._raw_x_data = []
         raw_data = self.experiment.measure(self.measurements[0])
-        self._fit_results, residual = self.process_raw_data(raw_data)
+        try:
+            self._fit_results, residual = self.process_raw_data(raw_data)
+        except (RuntimeError, ValueError):
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            self._fit_results = pd.Series(data=np.nan, index=['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall',
+                                                              'offset'])
         t_rise = self._fit_results['t_rise']
         t_fall = self._fit_results['t_fall']
         error_t_rise = t_rise / 5.
@@ -257,7 +262,13 @@ class LeadTunnelTimeByLeadScan(FittingEvaluator):
 
     def evaluate(self) -> (pd.Series, pd.Series):
         raw_data = self.experiment.measure(self.measurements[0])
-        fitresult, residual = self.process_raw_data(raw_data)
+        try:
+            fitresult, residual = self.process_raw_data(raw_data)
+        except (RuntimeError, ValueError):
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            fitresult = pd.Series(data=np.nan, index=['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall',
+                                                      'offset', 'slope', 'offset_linear', 'length_lin_fall', 'slope_1',
+                                                      'offset_linear_1', 'length_lin_rise'])
         self._fit_results = fitresult
         t_rise = self._fit_results['t_rise']
         t_fall = self._fit_results['t_fall']
@@ -388,7 +399,7 @@ class InterDotTCByLineScan(FittingEvaluator):
                                        n_points)
         try:
             fitresult, residual = self.process_raw_data((self._raw_x_data, self._raw_y_data))
-        except RuntimeError:
+        except (RuntimeError, ValueError):
             self.logger.error('The following evaluator could not evaluate its data: ' + str(self))
             self._fit_results = pd.Series(data=np.nan, index=['offset', 'slope', 'height', 'position', 'width'])
             return pd.Series([np.nan], list(self.parameters)), pd.Series([np.nan], list(self.parameters))
@@ -402,6 +413,8 @@ class InterDotTCByLineScan(FittingEvaluator):
         if len(y_data.shape) == 2:
             y_data = np.nanmean(y_data, 0)
         n_points = x_data.size
+        self._initial_fit_arguments = pd.Series(np.nan, index=['offset', 'slope', 'height', 'position', 'width'])
+        self.intermediate_fit_arguments = self._initial_fit_arguments.copy()
         poly_fit_result_start = np.polyfit(x=x_data[:round(.25 * n_points)], y=y_data[:round(.25 * n_points)], deg=1)
         poly_fit_result_end = np.polyfit(x=x_data[-round(.25 * n_points):], y=y_data[-round(.25 * n_points):], deg=1)
         height = (poly_fit_result_end[1] + poly_fit_result_end[0] * x_data[-1]) - (
@@ -466,7 +479,7 @@ class NewLoadTime(FittingEvaluator):
         data = self.experiment.measure(self.measurements[0])
         try:
             fitresult, residual = self.process_raw_data(data)
-        except RuntimeError:
+        except (RuntimeError, ValueError):
             self.logger.error('The following evaluator could not fit its data:' + str(self))
             fitresult = pd.Series(data=np.nan, index=['offset', 'height', 'curvature'])
             residual = np.nan
@@ -482,13 +495,13 @@ class NewLoadTime(FittingEvaluator):
         initial_curvature = self.initial_curvature
         # p0 = [np.nanmin(y_data), np.nanmax(y_data) - np.nanmin(y_data), initial_curvature]
         p0 = [np.nanmin(y_data), y_data[0] - y_data[-1], initial_curvature]
+        self._initial_fit_arguments = pd.Series(data=p0, index=['offset', 'height', 'curvature'])
         bounds = ([-np.inf, -np.inf, 2.],
                   [np.inf, np.inf, 300.])
         popt, pcov = optimize.curve_fit(f=func_load_time, p0=p0, bounds=bounds, xdata=x_data, ydata=y_data)
         if popt[2] < 0.:
             p0[2] = self.initial_fit_arguments['curvature'] * 20
             popt, pcov = optimize.curve_fit(f=func_load_time, p0=p0, bounds=bounds, xdata=x_data, ydata=y_data)
-        self._initial_fit_arguments = pd.Series(data=p0, index=['offset', 'height', 'curvature'])
         residuals = y_data - func_load_time(x_data, popt[0], popt[1], popt[2])
         residual = np.nanmean(np.square(residuals)) / (popt[1] * popt[1]) * 1500.
         return pd.Series(data=popt, index=['offset', 'height', 'curvature']), residual
-- 
2.43.0


From 5af46d97b1aa855b8d1d9de816e01b3f8b9cb5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 51/80] fix: sensing dot and transition evaluators report
 undefined data as NaN

---
 qtune/evaluator.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 01db9c8..72aed23 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -579,7 +579,7 @@ class LeadTransition(Evaluator):
                                  num=options['N_points'])
             self._raw_x_data.append(x_data)
             self._raw_y_data.append(data)
-            self.transition_positions[parameter] = x_data[transition_pos]
+            self.transition_positions[parameter] = np.nan if np.isnan(data).any() else x_data[transition_pos]
             error[parameter] = .01e-3**2
         return self.transition_positions, error
 
@@ -642,8 +642,13 @@ class SensingDot1D(Evaluator):
             stop=self._measurements[0].options['center'] + self.measurements[0].options['range'],
             num=self.measurements[0].options['N_points'])
 
-        current_signal, optimal_signal, optimal_position = self.process_raw_data(raw_data=(self._raw_x_data,
-                                                                                           self._raw_y_data))
+        try:
+            current_signal, optimal_signal, optimal_position = self.process_raw_data(raw_data=(self._raw_x_data,
+                                                                                               self._raw_y_data))
+        except (RuntimeError, ValueError):
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            current_signal = optimal_signal = optimal_position = np.nan
+            self.current_signal, self.optimal_signal, self.optimal_position = np.nan, np.nan, np.nan
         values["position_" + gate] = optimal_position
         error["position_" + gate] = 0.1e-3
         values["current_signal"] = current_signal
@@ -724,7 +729,13 @@ class SensingDot2D(Evaluator):
                                                 self.measurements[0].options['range'],
                                                 self._raw_y_data.shape[i]))
         # self._new_voltages, error = self.process_raw_data(data)
-        self._new_voltages, error = self.process_raw_data((self._raw_x_data, np.squeeze(self._raw_y_data)))
+        try:
+            self._new_voltages, error = self.process_raw_data((self._raw_x_data, np.squeeze(self._raw_y_data)))
+        except (RuntimeError, ValueError):
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            self._new_voltages = pd.Series(np.nan, ["position_" + self.measurements[0].options["gate1"],
+                                                    "position_" + self.measurements[0].options["gate2"]])
+            error = self._new_voltages.copy()
         # self._new_voltages["position_" + self.measurements[0].options["gate1"]] += \
         #     self.measurements[0].options['center'][0]
         # self._new_voltages["position_" + self.measurements[0].options["gate2"]] += \
-- 
2.43.0


From 0e973b45e5a292a7116359868de95bc17bef814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 52/80] fix: sensing dot positions are undefined if the data
 are

---
 qtune/evaluator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 72aed23..44f4f8b 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -665,10 +665,10 @@ class SensingDot1D(Evaluator):
         derivative_approximation = np.diff(polynomial_approximation(raw_x_data))
         cutoff = len(raw_x_data) // 16
         if self._rising_flank:
-            steepest_point = np.argmax(derivative_approximation[cutoff:-cutoff])
+            steepest_point = np.nanargmax(derivative_approximation[cutoff:-cutoff])
             self.optimal_signal = np.max(derivative_approximation)
         else:
-            steepest_point = np.argmin(derivative_approximation[cutoff:-cutoff])
+            steepest_point = np.nanargmin(derivative_approximation[cutoff:-cutoff])
             self.optimal_signal = np.min(derivative_approximation)
         self.optimal_position = raw_x_data[steepest_point + cutoff]
         self.current_signal = derivative_approximation[int(0.5 * self.measurements[0].options['N_points'])]
@@ -773,10 +773,10 @@ class SensingDot2D(Evaluator):
             differentiated_approximation[i] = np.diff(poly(raw_x_data[1]))
         cutoff = raw_x_data[1].size // 25
         if self._rising_flank:
-            steepest_point = np.unravel_index(np.argmax(differentiated_approximation[:, cutoff:-cutoff], axis=None),
+            steepest_point = np.unravel_index(np.nanargmax(differentiated_approximation[:, cutoff:-cutoff], axis=None),
                                               differentiated_approximation[:, cutoff:-cutoff].shape)
         else:
-            steepest_point = np.unravel_index(np.argmin(differentiated_approximation[:, cutoff:-cutoff], axis=None),
+            steepest_point = np.unravel_index(np.nanargmin(differentiated_approximation[:, cutoff:-cutoff], axis=None),
                                               differentiated_approximation[:, cutoff:-cutoff].shape)
 
         new_voltages = pd.Series([raw_x_data[0][steepest_point[0]], raw_x_data[1][steepest_point[1] + cutoff]],
-- 
2.43.0


From 8109fb413cb817345d29dc79eddbe53eb17d1c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 53/80] fix: the final fit of the inter dot transition
 emphasises the range around the transition

---
 qtune/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 44f4f8b..4e6234c 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -428,7 +428,7 @@ class InterDotTCByLineScan(FittingEvaluator):
                                                      index=['offset', 'slope', 'height', 'position', 'width']))
         popt, pcov = optimize.curve_fit(f=func_inter_dot_coupling, p0=initial_parameters, xdata=x_data, ydata=y_data)
         # second fit which emphasises the range around the transition
-        position_point = int((popt[3] + np.ptp(x_data)) / 2. / np.ptp(x_data) * n_points)
+        position_point = int((popt[3] - x_data[0]) / np.ptp(x_data) * n_points)
         weights = np.ones(n_points)
         heavy_range = round(2 * popt[4] / np.ptp(x_data) * n_points)
         # weights[max(0, int(position_point - heavy_range)):min(n_points - 1, int(position_point + heavy_range))] = .1
-- 
2.43.0


From 0da0a2cddcc7f80ec127e0ab76619852bc2bb2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 54/80] fix: a step commanded during an iteration of the GUI
 worker is not lost

---
 qtune/gui.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 25a7d46..7057f0a 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -703,6 +703,9 @@ class GUI(QtWidgets.QMainWindow):
                 time.sleep(0.05)
 
             while (self._continuous or self._stepped) and not self._stop:
+                # a step commanded from here on belongs to the next iteration
+                self._stepped = False
+
                 if self.auto_tuner:
                     try:
 
@@ -724,8 +727,6 @@ class GUI(QtWidgets.QMainWindow):
                     self.logger.error('No Autotuner: Pausing...')
                     self.pause()
 
-                self._stepped = False
-
     def log(self, msg: str):
         self._log_signal.emit(msg)
 
-- 
2.43.0


From 0d4c2ca18a7ef51c5f4a078b85dd92635e905a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 55/80] fix: the buttons of the GUI show a restarted worker as
 paused

---
 qtune/gui.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 7057f0a..3656bbd 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -695,6 +695,7 @@ class GUI(QtWidgets.QMainWindow):
         self._continuous = False
         self._stepped = False
         self._stop = False
+        self._update_buttons()
         self._thread.start()
 
     def _work(self):
@@ -742,9 +743,12 @@ class GUI(QtWidgets.QMainWindow):
             self.logger.info('Starting worker thread')
 
         self._continuous = True
-        self._start_btn.setEnabled(False)
-        self._step_btn.setEnabled(False)
-        self._stop_btn.setEnabled(True)
+        self._update_buttons()
+
+    def _update_buttons(self):
+        self._start_btn.setEnabled(not self._continuous)
+        self._step_btn.setEnabled(not self._continuous)
+        self._stop_btn.setEnabled(self._continuous)
 
     def step(self):
         if not self._thread.is_alive():
@@ -764,9 +768,7 @@ class GUI(QtWidgets.QMainWindow):
 
         self._continuous = False
         self._stepped = False
-        self._start_btn.setEnabled(True)
-        self._step_btn.setEnabled(True)
-        self._stop_btn.setEnabled(False)
+        self._update_buttons()
 
     def close(self):
         self._stop = True
-- 
2.43.0


From 01d852e6ce21531993cfe0b24a39d0f6282dcc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 56/80] fix: closing the window of the GUI by the user stops
 the worker

---
 qtune/gui.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qtune/gui.py b/qtune/gui.py
index 3656bbd..fc4ce07 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -775,6 +775,12 @@ class GUI(QtWidgets.QMainWindow):
         self._thread.join()
         super().close()
 
+    def closeEvent(self, event: QtGui.QCloseEvent):
+        # the window is closed by the user
+        self._stop = True
+        self._thread.join()
+        super().closeEvent(event)
+
     def __del__(self):
         self.close()
 
-- 
2.43.0


From 2f2bc723e5c1f44f2aceed39818f34e2c2a2fb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 57/80] fix: the QQD module can be imported with a recent numpy

---
 qtune/sm_tune_qqd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 5f5329f..55c31b8 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -98,7 +98,7 @@ class SMTuneQQD(Experiment):
 
         return self.read_gate_voltages()  # set_qqd_gate_voltages
 
-    def tune(self, measurement_name, index: np.int, **kwargs) -> pd.Series:
+    def tune(self, measurement_name, index: int, **kwargs) -> pd.Series:
         # Tune wrapper using the MATLAB syntax
 
         # data ---  args        <<<< contains struct arrays!
@@ -120,9 +120,9 @@ class SMTuneQQD(Experiment):
             vals = list(options.values())
             name_value_pairs = [x for t in zip(keys, vals) for x in t]
 
-            data_view = tune_view(measurement_name, *([np.float(index)] + name_value_pairs))
+            data_view = tune_view(measurement_name, *([float(index)] + name_value_pairs))
         else:
-            data_view = tune_view(measurement_name, np.float(index))
+            data_view = tune_view(measurement_name, float(index))
 
         return pd.Series({'data': data_view})
 
-- 
2.43.0


From bd0f63464c6c1a363429af32ec694f9521c91f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 58/80] fix: numpy integers are translated to MATLAB indices
 like Python integers

---
 qtune/mat2py.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qtune/mat2py.py b/qtune/mat2py.py
index 6de5f88..ef52b6f 100644
--- a/qtune/mat2py.py
+++ b/qtune/mat2py.py
@@ -16,6 +16,7 @@
 
 import re
 import io
+import numbers
 import uuid
 import datetime
 
@@ -110,12 +111,12 @@ def _transform_slice(python_slice):
 
 
 def _transform_tuple(index_tuple):
-    transformed = [_transform_int(idx) if isinstance(idx, int) else _transform_slice(idx)
+    transformed = [_transform_int(idx) if isinstance(idx, numbers.Integral) else _transform_slice(idx)
                    for idx in index_tuple]
     return ','.join(transformed)
 
 def transform_index(idx):
-    if isinstance(idx, int):
+    if isinstance(idx, numbers.Integral):
         idx = _transform_int(idx)
     
     elif isinstance(idx, slice):
@@ -181,11 +182,11 @@ class MATLABStructView(MATLABView):
 
 class MATLABCellView(MATLABView):
     def __getitem__(self, idx):
-        if isinstance(idx, int):
+        if isinstance(idx, numbers.Integral):
             idx = transform_index(idx)
             return make_view(self._engine, _get_item_cell(self._eval_str, idx))
 
-        elif all(isinstance(dim_idx, int) for dim_idx in idx):
+        elif all(isinstance(dim_idx, numbers.Integral) for dim_idx in idx):
             idx = transform_index(idx)
             return make_view(self._engine, _get_item_cell(self._eval_str, idx))
         
-- 
2.43.0


From 1e8ef8bc1b55977311f4351ddf9093dcff44076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 59/80] fix: set points can be given to and removed from
 parameters during the tuning

---
 qtune/parameter_tuner.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 55a39a0..dc9887d 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -60,13 +60,10 @@ class ParameterTuner(metaclass=HDF5Serializable):
         self._evaluatable_voltages = evaluatable_voltages or []
 
         # parameters which are only kept invariant have no values
-        relevant_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
-                                          axis='columns').dropna().index
+        relevant_index = self._relevant_parameters()
 
         if last_parameter_values is None:
-            not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
-                                            axis='columns').dropna().index
-            self._last_parameter_values = pd.Series(index=not_na_index)
+            self._last_parameter_values = pd.Series(index=relevant_index)
         else:
             # commented code was used for a debug attempt of the asynchron reader
             # import pickle
@@ -82,9 +79,7 @@ class ParameterTuner(metaclass=HDF5Serializable):
             # os.remove(storage_path)
 
         if last_parameters_variances is None:
-            not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
-                                            axis='columns').dropna().index
-            self._last_parameters_variances = pd.Series(index=not_na_index)
+            self._last_parameters_variances = pd.Series(index=relevant_index)
         else:
             assert set(relevant_index).issubset(set(last_parameters_variances.index))
             self._last_parameters_variances = last_parameters_variances
@@ -131,6 +126,20 @@ class ParameterTuner(metaclass=HDF5Serializable):
     @target.setter
     def target(self, changes):
         self.solver.target = changes
+        # a set point may be given to a parameter that was only kept invariant before
+        index = self._last_parameter_values.index
+        index = index.append(self._relevant_parameters().difference(index))
+        self._last_parameter_values = self._last_parameter_values.reindex(index)
+        self._last_parameters_variances = self._last_parameters_variances.reindex(index)
+
+    def _relevant_parameters(self) -> pd.Index:
+        """Parameters which are not only kept invariant"""
+        requirements = self.target.drop(columns='rescaling_factor', errors='ignore').dropna(axis='columns', how='all')
+        if requirements.columns.empty:
+            return self.target.index[:0]
+        if 'desired' in requirements:
+            return requirements.index[requirements['desired'].notna()]
+        return requirements.dropna().index
 
     @property
     def parameters(self) -> Sequence[str]:
@@ -252,7 +261,7 @@ class SubsetTuner(ParameterTuner):
         self._last_parameters_variances = current_variances[self._last_parameter_values.index]
 
         # check for an evaluation failure (only relevant parameters)
-        if self._last_parameter_values.isnull().values.any():
+        if self._last_parameter_values[self._relevant_parameters()].isnull().values.any():
             self._last_evaluation_failed = True
             return False
         self._last_evaluation_failed = False
-- 
2.43.0


From 3fc99e54afde165cb7c497e78ea838d00233cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 60/80] fix: parameters without an entry in the table of labels
 can be plotted

---
 qtune/history.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 8f4cb62..d9c0548 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -505,8 +505,9 @@ def plot_parameters(parameter_data_frame: pd.DataFrame,
     parameter_ax = parameter_data_frame.plot(subplots=True, yerr=parameter_std,
                                              ax=parameter_ax, sharex=True, legend=False)
     for ax, par_name in zip(parameter_ax, parameter_data_frame.columns):
-        ax.set_ylabel(parameter_information[par_name]["entity_unit"])
-        ax.set_title(parameter_information[par_name]["name"])
+        information = parameter_information.get(par_name, {"entity_unit": par_name, "name": par_name})
+        ax.set_ylabel(information["entity_unit"])
+        ax.set_title(information["name"])
     parameter_ax[-1].set_xlabel("Measurement Number")
     return parameter_fig, parameter_ax
 
@@ -529,7 +530,8 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
         else:
             gradient.plot(ax=ax)
 
-        ax.set_ylabel(parameter_information[parameter_name]["gradient_unit"])
+        information = parameter_information.get(parameter_name, {"gradient_unit": "Gradient " + parameter_name})
+        ax.set_ylabel(information["gradient_unit"])
     grad_ax[0].set_title("Response Matrix")
     grad_ax[-1].set_xlabel("Measurement Number")
     return grad_fig, grad_ax
-- 
2.43.0


From 779626675b14f832af02fac3b91ec72b4fd5676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 61/80] fix: a single parameter, gradient or measurement can be
 plotted

---
 qtune/gui.py     | 2 +-
 qtune/history.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index fc4ce07..b7748f8 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -309,7 +309,7 @@ class QTuneMatplotWidget(MatplotlibWidget):
             return self.getFigure().axes
         else:
             self.getFigure().clear()
-            return self.getFigure().subplots(nrows=number_rows)
+            return self.getFigure().subplots(nrows=number_rows, squeeze=False)[:, 0]
 
     @property
     def parameter_names(self):
diff --git a/qtune/history.py b/qtune/history.py
index d9c0548..ed39226 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -499,7 +499,8 @@ def plot_parameters(parameter_data_frame: pd.DataFrame,
     if parameter_std is None:
         parameter_std = pd.DataFrame()
     if axes is None:
-        parameter_fig, parameter_ax = plt.subplots(nrows=len(parameter_data_frame.columns))
+        parameter_fig, parameter_ax = plt.subplots(nrows=len(parameter_data_frame.columns), squeeze=False)
+        parameter_ax = parameter_ax[:, 0]
     else:
         parameter_fig, parameter_ax = None, axes
     parameter_ax = parameter_data_frame.plot(subplots=True, yerr=parameter_std,
@@ -519,7 +520,8 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
         gradient_std = dict()
 
     if axes is None:
-        grad_fig, grad_ax = plt.subplots(nrows=len(gradients))
+        grad_fig, grad_ax = plt.subplots(nrows=len(gradients), squeeze=False)
+        grad_ax = grad_ax[:, 0]
     else:
         grad_fig, grad_ax = None, axes
 
-- 
2.43.0


From 64a4e47731e82fe4fa74d1615c57cf0eb0d5267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 62/80] fix: the gradient window shows tunings with parameters
 without gradients

---
 qtune/gui.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qtune/gui.py b/qtune/gui.py
index b7748f8..de321fc 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -341,6 +341,13 @@ class GradientWidget(QTuneMatplotWidget):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
+    @property
+    def parameter_names(self):
+        # there are parameters without gradients
+        if self._parameter_names is None:
+            return sorted(self.history.gradient_controlled_parameter_names)
+        return self._parameter_names
+
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
     def refresh(self):
-- 
2.43.0


From f441c9ebc4f115b9c9c38854ddd9c95ed9b4ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 63/80] fix: the data of every evaluator can be plotted from
 the history

---
 qtune/history.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index ed39226..73c9d23 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -419,10 +419,12 @@ class History:
         :param evaluator_names: Names of the evaluator to be plotted.
         :return: Figure, Axes
         """
+        if evaluator_names is None:
+            evaluator_names = sorted(self.evaluator_names)
         for name in evaluator_names:
             if name not in self._evaluator_data.columns:
                 self.logger.warning(name + ' is not in the evaluation data.')
-                evaluator_names.remove(name)
+        evaluator_names = [name for name in evaluator_names if name in self._evaluator_data.columns]
 
         if end is None:
             end = start + 1
@@ -432,7 +434,7 @@ class History:
             if i not in self._evaluator_data.index:
                 raise RuntimeError('These indices are not in the aquired data!')
             number_measurements = [
-                len(self._evaluator_data.loc[self._evaluator_data.index[i], evaluator]['measurements'])
+                number_of_measurements(self._evaluator_data.loc[self._evaluator_data.index[i], evaluator])
                 for evaluator in evaluator_names
                 if not self._evaluator_data.loc[self._evaluator_data.index[i], evaluator] != self._evaluator_data.loc[
                     self._evaluator_data.index[i], evaluator]]
@@ -442,8 +444,8 @@ class History:
                 if not self._evaluator_data.loc[self._evaluator_data.index[i], evaluator] != self._evaluator_data.loc[
                     self._evaluator_data.index[i], evaluator]]
             eval_data_fig, eval_data_ax = plt.subplots(nrows=2,
-                                                       ncols=sum(number_measurements) // 2 + sum(
-                                                           number_measurements) % 2)
+                                                       ncols=max(1, sum(number_measurements) // 2 + sum(
+                                                           number_measurements) % 2))
             eval_data_figs.append(eval_data_fig)
             eval_data_axs.append(eval_data_ax)
             ax_list = [eval_data_ax.ravel()[sum(number_measurements[0:j]):sum(number_measurements[0:j + 1])] for j in
@@ -618,6 +620,13 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
     return evaluator_data
 
 
+def number_of_measurements(evaluator_hdf5: dict) -> int:
+    if 'measurements' in evaluator_hdf5:
+        return len(evaluator_hdf5['measurements'])
+    # averaging evaluators contain the evaluator which measures
+    return len(evaluator_hdf5['evaluator'].measurements)
+
+
 def plot_load_time(ax, evaluator_hdf5, **_):
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
                                  fit_function=qtune.evaluator.func_load_time,
@@ -664,7 +673,7 @@ def plot_transition(ax, evaluator_hdf5: dict, **_):
 
 
 def plot_1dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
-    if isinstance(ax, Tuple) or isinstance(ax, List):
+    if isinstance(ax, Tuple) or isinstance(ax, List) or isinstance(ax, np.ndarray):
         ax = ax[0]
     qtune.util.plot_raw_data_vertical_marks(y_data=evaluator_hdf5['raw_y_data'],
                                             x_data=evaluator_hdf5['raw_x_data'],
-- 
2.43.0


From ecd699dccd4101d84d39eff8e2f9a6d1588ed4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 64/80] fix: the history keeps the measurements of averaging
 evaluators

---
 qtune/history.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 73c9d23..94d0862 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -14,6 +14,7 @@
 
 # @email: julian.teske@rwth-aachen.de
 
+import copy
 import os
 import operator
 import re
@@ -607,16 +608,22 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
                 relevant_evaluators += par_tuner.expensive_evaluators
             for evaluator in relevant_evaluators:
                 if evaluator.raw_data is not None:
-                    eval_data = evaluator.to_hdf5()
-                    evaluator_data[evaluator.name] = [eval_data, ]
+                    evaluator_data[evaluator.name] = [copy_evaluator_data(evaluator), ]
         elif isinstance(par_tuner, qtune.parameter_tuner.SubsetTuner) and not par_tuner.last_voltages_evaluated:
             # the raw data belong to previous voltages
             continue
         else:
             for evaluator in par_tuner.evaluators:
                 if evaluator.raw_data is not None:
-                    eval_data = evaluator.to_hdf5()
-                    evaluator_data[evaluator.name] = [eval_data, ]
+                    evaluator_data[evaluator.name] = [copy_evaluator_data(evaluator), ]
+    return evaluator_data
+
+
+def copy_evaluator_data(evaluator: qtune.evaluator.Evaluator) -> dict:
+    evaluator_data = evaluator.to_hdf5()
+    if isinstance(evaluator, qtune.evaluator.AveragingEvaluator):
+        # the averaged evaluator is going to measure again
+        evaluator_data['evaluator'] = copy.copy(evaluator_data['evaluator'])
     return evaluator_data
 
 
-- 
2.43.0


From 8134ecf5dcc58b54e666ac7687030e12de520ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 65/80] fix: repeated scans are averaged for the plots with
 marks

---
 qtune/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/util.py b/qtune/util.py
index 5f6a02d..32e8674 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -267,8 +267,8 @@ def plot_raw_data_vertical_marks(y_data, x_data, marking_position, ax=None):
     if y_data is None:
         return ax
     y_data = y_data.squeeze()
-    if len(y_data) == 2:
-        y_data = np.nanmean(y_data)
+    if len(y_data.shape) == 2:
+        y_data = np.nanmean(y_data, 0)
     if x_data is None:
         x_data = np.arange(0, y_data.shape[0])
 
-- 
2.43.0


From afea664ad7f701991d1dc2f6c3b3ea64f6034925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 66/80] fix: the lead tunnel times are plotted with the
 function which is fitted

---
 qtune/history.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 94d0862..c254cc0 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -663,8 +663,14 @@ def plot_lead_time(ax, evaluator_hdf5: dict, **_):
         axi = ax
     if isinstance(axi, List) or isinstance(axi, Tuple) or isinstance(axi, np.ndarray):
         axi = axi[0]
+    arguments = evaluator_hdf5['initial_fit_arguments']
+    if arguments is not None and 'length_lin_fall' in arguments:
+        fit_function = qtune.evaluator.func_lead_times_v2
+    else:
+        # prefit version
+        fit_function = qtune.evaluator.func_lead_times_v1
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
-                                 fit_function=qtune.evaluator.func_lead_times_v1,
+                                 fit_function=fit_function,
                                  function_args=evaluator_hdf5['fit_results'],
                                  initial_arguments=evaluator_hdf5['initial_fit_arguments'], ax=axi)
     axi.legend(['Data', 'Fit', 'Initial_parameters'])
-- 
2.43.0


From 8a298e22828cbb3c6e4dbed794d4ca3c57e6f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 67/80] fix: the evaluation of lead tunnel times does not draw
 into foreign figures

---
 qtune/evaluator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 4e6234c..1176002 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -316,7 +316,6 @@ class LeadTunnelTimeByLeadScan(FittingEvaluator):
                                      'length_lin_rise'])
         residuals = y_data - func_lead_times_v2(x_data, **dict(fitresult))
         scaled_residual = np.nanmean(residuals) / fitresult['height']
-        qtune.util.plot_raw_data_fit(y_data=y_data, x_data=x_data)
         # TODO: properly scale and use residual
         return fitresult, scaled_residual
 
-- 
2.43.0


From a888c55d787a9873a51bafe2b137a29c4db2cf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 68/80] fix: the reload window shows the tune run which is
 reloaded

---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index de321fc..90e3e47 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -414,7 +414,7 @@ class ReloadWidget(pg.LayoutWidget):
         tune_run_label = QtWidgets.QLabel('Reload tune run number')
         self.addWidget(tune_run_label, 1, 1)
         self.tune_run_line = QtWidgets.QLineEdit()
-        self.tune_run_line.setText('1')
+        self.tune_run_line.setText(str(self._tune_run_number))
         self.tune_run_line.setValidator(QtGui.QIntValidator())
         self.tune_run_line.editingFinished.connect(self.refreh_tune_run_number)
         self.addWidget(self.tune_run_line, 2, 1)
-- 
2.43.0


From 183833e55dc0b3c25caa25ab1272a2d146adc535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 69/80] fix: plotting a two dimensional scan does not open
 another figure

---
 qtune/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/util.py b/qtune/util.py
index 32e8674..89c5021 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -288,7 +288,7 @@ def plot_raw_data_2_dim_marks(y_data, x_data, marking_position, ax=None):
     image = ax.pcolormesh(x, y, y_data)
     ax.hlines(y=marking_position.iloc[0], xmin=min(x_data[1]), xmax=max(x_data[1]))
     ax.vlines(x=marking_position.iloc[1], ymin=min(x_data[0]), ymax=max(x_data[0]))
-    plt.colorbar(image, ax=ax)
+    ax.figure.colorbar(image, ax=ax)
     return ax
 
 
-- 
2.43.0


From ec4c4acee757d50efcc50779ebe165f9b9882e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 70/80] fix: tunnel couplings and lead times are not labelled
 as transition positions

---
 qtune/history.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index c254cc0..4397103 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -48,14 +48,14 @@ parameter_information = {
         "gradient_unit": "Gradient Transition Lead B (V/V)"
     },
     "tunnel_coupling": {
-        "entity_unit": "Transition Position Lead B (V)",
-        "name": "Transition Position Lead B",
-        "gradient_unit": "Gradient Transition Lead B (V/V)"
+        "entity_unit": "Tunnel Coupling (\mu V)",
+        "name": "Inter-Dot Tunnel Coupling AB",
+        "gradient_unit": "Gradient Tunnel Coupling (\mu V / V)"
     },
     "lead time": {
-        "entity_unit": "Transition Position Lead B (V)",
-        "name": "Transition Position Lead B",
-        "gradient_unit": "Gradient Transition Lead B (V/V)"
+        "entity_unit": "Time (ns)",
+        "name": "Lead Tunnel Time",
+        "gradient_unit": "Gradient Lead Tunnel Time (ns/V)"
     },
     "position_RFA": {
         "entity_unit": "Transition Position Lead A (V)",
-- 
2.43.0


From 38936f1ec8bacafedeae87783d3d70968aa8cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 71/80] fix: the real time plot works with recent versions of
 pyqtgraph

---
 qtune/gui.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 90e3e47..7d84779 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -236,16 +236,16 @@ class PlotOrganizer(pg.LayoutWidget):
     def __init__(self, history: History, **kwargs):
         super().__init__(**kwargs)
 
-        gates = {'name': 'Gate Voltages', 'type': 'group', 'children': [
+        gates = {'name': 'Gate Voltages', 'type': 'group', 'value': None, 'children': [
             {'name': name, 'type': 'bool', 'value': False} for name in history.gate_names
         ]}
 
-        params = {'name': 'Parameters', 'type': 'group', 'children': [
+        params = {'name': 'Parameters', 'type': 'group', 'value': None, 'children': [
             {'name': name, 'type': 'list', 'values': ['', 'plot', 'plot + error'], 'value': ''}
             for name in history.parameter_names
         ]}
 
-        grads = {'name': 'Gradients', 'type': 'group', 'children': [
+        grads = {'name': 'Gradients', 'type': 'group', 'value': None, 'children': [
             {'name': parameter_name, 'type': 'list', 'values': ['', 'plot', 'plot + error'], 'value': '',
              'expanded': False, 'children': [
                 {'name': gate_name, 'type': 'list', 'values': ['', 'plot', 'plot + error'], 'value': ''}
-- 
2.43.0


From 77e6d16ae40620ed957b0394a6c108962f7334d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 72/80] fix: the gradient window of a tuning without gradients
 is empty

---
 qtune/gui.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/gui.py b/qtune/gui.py
index 7d84779..7f3f070 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -351,6 +351,9 @@ class GradientWidget(QTuneMatplotWidget):
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
     def refresh(self):
+        if not self.parameter_names:
+            return
+
         gradients = {par_name: self.history.get_gradients(parameter_name=par_name)
                      for par_name in self.parameter_names}
 
-- 
2.43.0


From daf5883adaa02cc73a085b558db640ddbefe6a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 73/80] fix: all reload windows of the GUI use the reloaded
 autotuner

---
 qtune/gui.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/gui.py b/qtune/gui.py
index 7f3f070..f14f4d3 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -617,6 +617,8 @@ class GUI(QtWidgets.QMainWindow):
     @log_exceptions('plotting')
     def load_auto_tuner_from_reload_widget(self):
         self._auto_tuner = self.sender().auto_tuner
+        for reload_widget in self._reload_windows:
+            reload_widget.auto_tuner = self._auto_tuner
 
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
-- 
2.43.0


From bfe32d657ba98960e5e7e3bbe9bd3449eca8a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 74/80] fix: the history accepts tunings which have not
 evaluated their voltages yet

---
 qtune/history.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/history.py b/qtune/history.py
index 4397103..fdbaac9 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -314,6 +314,9 @@ class History:
             self._paths_for_reload[-1] = path
             # levels below the stored index are evaluated again after a restart or a vanishing step
             start = min(self._data_frame['tuner_index'].iloc[-1], max(evaluated_tuner_index - 1, 0))
+            if np.isnan(start):
+                # nothing was evaluated when the row was added
+                start = 0
             new_information = self.read_autotuner_to_data_frame(autotuner, start=start, end=evaluated_tuner_index)
             self._data_frame.loc[self._data_frame.index[-1], new_information.columns] = new_information.iloc[0]
             new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, start=start, end=evaluated_tuner_index)
-- 
2.43.0


From b5e5522e0caa8d0db4dada3faf687dcda1aaa431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 75/80] fix: QQDResp accepts all positions by default

The default of the maximal position was -inf, so every position was discarded.
---
 qtune/sm_tune_qqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 55c31b8..f7673a6 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -466,7 +466,7 @@ class QQDResp(Evaluator):
         else:
             self._min_position = pd.Series(index=self.parameters, data=min_position)
         if max_position is None:
-            self._max_position = pd.Series(index=self.parameters, data=-np.inf)
+            self._max_position = pd.Series(index=self.parameters, data=np.inf)
         elif isinstance(max_position, pd.Series):
             self._max_position = max_position
         else:
-- 
2.43.0


From 3c165cfc77fa7322d1b443bb177d210ac23934cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 76/80] fix: QQDResp assigns the limits of the positions by
 parameter name

Limits given as a series in another order were applied to the wrong parameters.
---
 qtune/sm_tune_qqd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index f7673a6..ff547c5 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -476,8 +476,8 @@ class QQDResp(Evaluator):
         self.logger.info(f'Evaluating {self.parameters}.')
         measurement_result = self.experiment.measure(self.measurements[0])
         positions, errors = self.process_raw_data(measurement_result)
-        for i in range(len(positions)):
-            if positions[i] < self._min_position.iloc[i] or positions[i] > self._max_position.iloc[i]:
+        for i, parameter in enumerate(self.parameters):
+            if positions[i] < self._min_position[parameter] or positions[i] > self._max_position[parameter]:
                 positions[i] = np.nan
         return pd.Series(data=positions, index=self.parameters), \
                pd.Series(data=errors, index=self.parameters)
-- 
2.43.0


From 3788fa713a75dd014c4039a841eacf00ed2d66ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 77/80] fix: QQDMeasurement keeps its name and options

---
 qtune/sm_tune_qqd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index ff547c5..75e2099 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -36,6 +36,7 @@ class QQDMeasurement(Measurement):
     """
 
     def __init__(self, name, **kwargs):
+        super().__init__(name, **kwargs)
         self.data = None
 
     def to_hdf5(self):
-- 
2.43.0


From 61741f9b617e222ada3e571f945508cf976eb61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 78/80] fix: reevaluate_data_with_matlab reads the recorded
 evaluators

The history holds dictionaries. The measurement is copied, because otherwise every following measurement of a
running program would load the old data, too.
---
 qtune/sm_tune_qqd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 75e2099..b83e5a5 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -509,8 +509,8 @@ def reevaluate_data_with_matlab(experiment, history: History, evaluator_name, in
     results = []
     for i in indices:
         evaluator_data = history._evaluator_data[evaluator_name].iloc[i]
-        measurement = evaluator_data.measurements[0]
-        measurement.options['loadFile'] = evaluator_data._last_file_names
+        recorded = evaluator_data['measurements'][0]
+        measurement = Measurement(recorded.name, **dict(recorded.options, loadFile=evaluator_data['last_file_names']))
         results.append(experiment.measure(measurement))
         if hold:
             _ = input('Type anything to continue.')
-- 
2.43.0


From 004628ce1433d4c9b7b7f86e5d628a953f68812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 79/80] fix: SMTuneQQD provides the file name of its last
 measurement

SMQQDPassThru requires get_last_file_name, without which it could not be evaluated at all.
---
 qtune/sm_tune_qqd.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index b83e5a5..f8d7e95 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -55,7 +55,7 @@ class SMTuneQQD(Experiment):
         self._matlab = matlab_instance
         # TODO Add some more comments
 
-        self._last_file_name = None
+        self._last_data = None
 
         self._measurements = {'sensor 2d': Measurement('sensor 2d'),
                               'sensor': Measurement('sensor'),
@@ -125,8 +125,16 @@ class SMTuneQQD(Experiment):
         else:
             data_view = tune_view(measurement_name, float(index))
 
+        self._last_data = data_view
+
         return pd.Series({'data': data_view})
 
+    def get_last_file_name(self):
+        """Name of the file which contains the data of the last measurement."""
+        if self._last_data is None:
+            return None
+        return self._last_data.args.fullFile
+
     def pytune(self, measurement) -> pd.Series:
         # Tune wrapper using the autotune syntax
         # where do your Measurements get the option 'index'?
-- 
2.43.0


From c047afdc724b5cb0206ac1aa523126793e6604d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 80/80] fix: the main window can be opened if handlers of
 parent loggers exist

---
 qtune/gui.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index f14f4d3..572555f 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -802,8 +802,8 @@ class GUI(QtWidgets.QMainWindow):
 
         self.log_level.currentIndexChanged.connect(LogLevelSelecter(self, logger, parent=self).select)
 
-        while logger.hasHandlers():
-            to_rm = next(iter(logger.handlers))
+        # hasHandlers() would include those of the parent loggers
+        for to_rm in list(logger.handlers):
             logger.removeHandler(to_rm)
 
         handler = FunctionHandler(self.log)
-- 
2.43.0

