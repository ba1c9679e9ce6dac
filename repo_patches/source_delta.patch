From 63ceb7f91920f435083c7f24a8cfc793d8929477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 01/54] fix: keep constructor arguments alive while writing
 HDF5 so that recycled ids do not merge distinct objects

---
 qtune/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index 783a523..14b2790 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -107,6 +107,8 @@ def _to_hdf5(hdf5_parent_group: h5py.Group, name, obj, serialized):
         serialized[id(obj)] = hdf5_group
 
         data = obj.to_hdf5()
+        # temporary objects in data must outlive the serialization as they are identified by their id
+        serialized.setdefault('#alive', []).append(data)
         for key, value in data.items():
             _to_hdf5(hdf5_group, key, value, serialized)
         return
-- 
2.43.0


From 5143b056bca571599543f22f1ce916c82af35338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 02/54] fix: read strings stored in HDF5 back as str instead of
 the representation of bytes

---
 qtune/storage.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 14b2790..c016279 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -178,6 +178,11 @@ def to_hdf5(filename_or_handle: Union[str, h5py.Group], name: str, obj,
     _to_hdf5(root, name, obj, serialized)
 
 
+def _decode(entry) -> str:
+    """Newer versions of h5py return variable length strings as bytes."""
+    return entry.decode('utf-8') if isinstance(entry, bytes) else str(entry)
+
+
 def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
     """
     Reloads a saved object.
@@ -249,12 +254,15 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
 
             if hdf5_obj.attrs['#type'] == 'Series':
                 idx = hdf5_obj.attrs['index']
-                result = pd.Series(data=np.asarray(hdf5_obj), index=idx)
+                data = np.asarray(hdf5_obj)
+                if h5py.check_dtype(vlen=hdf5_obj.dtype) is not None:
+                    data = np.array([_decode(entry) for entry in data], dtype=object)
+                result = pd.Series(data=data, index=idx)
                 deserialized[hdf5_obj.id] = result
                 return result
 
             if hdf5_obj.attrs['#type'] == 'str':
-                result = str(np.asarray(hdf5_obj))
+                result = _decode(hdf5_obj[()])
                 deserialized[hdf5_obj.id] = result
                 return result
 
-- 
2.43.0


From da4b67c2a4f46c2b1772b0817a0bbeb3198cd2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 03/54] fix: accept the stored (position, value, variance)
 measurements when rebuilding a finite differences estimator

---
 qtune/gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index a699a6a..66e5f24 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -114,8 +114,8 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
         self._covariance = covariance
 
         if stored_measurements is not None:
-            for measurement in stored_measurements:
-                pd.testing.assert_index_equal(measurement.index, epsilon.index)
+            for position, *_ in stored_measurements:
+                pd.testing.assert_index_equal(position.index, self._epsilon.index)
         self._stored_measurements = stored_measurements or []
 
         # only for debugging purposes
-- 
2.43.0


From 760be0110e6c940fecaa129118c34c00bb6c9647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 04/54] fix: store the tuned voltages and the failure flag of
 the sensing dot tuner

---
 qtune/parameter_tuner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index fb394b9..6f0e6e9 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -401,7 +401,10 @@ class SensingDotTuner(ParameterTuner):
                     expensive_evaluators=self._expensive_evaluators,
                     gates=self._tunable_gates,
                     solver=self.solver,
+                    tuned_voltages=self._tuned_voltages,
                     last_voltage=self._last_voltage,
                     last_parameter_values=self._last_parameter_values,
                     last_parameters_variances=self._last_parameters_variances,
+                    last_evaluation_failed=self._last_evaluation_failed,
+                    evaluatable_voltages=self._evaluatable_voltages,
                     cheap_evaluation_only=self.cheap_evaluation_only)
-- 
2.43.0


From 53e7d2bbd64a09ab050e16cfc43db7074186f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 05/54] fix: store the flank setting of the sensing dot
 evaluators

---
 qtune/evaluator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 008e6d9..df6173b 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -594,7 +594,7 @@ class SensingDot1D(Evaluator):
                  optimal_signal=None,
                  optimal_position=None,
                  name='SensingDot1D',
-                 rising_flank=Optional[bool]):
+                 rising_flank: Optional[bool]=None):
         self._sweeping_gate = sweeping_gate
         self.current_signal = current_signal
         self.optimal_signal = optimal_signal
@@ -661,7 +661,8 @@ class SensingDot1D(Evaluator):
                     sweeping_gate=self._sweeping_gate,
                     current_signal=self.current_signal,
                     optimal_signal=self.optimal_signal,
-                    optimal_position=self.optimal_position)
+                    optimal_position=self.optimal_position,
+                    rising_flank=self._rising_flank)
 
 
 class SensingDot2D(Evaluator):
@@ -765,7 +766,8 @@ class SensingDot2D(Evaluator):
         return dict(super().to_hdf5(),
                     sweeping_gates=self._sweeping_gates,
                     scan_range=self._scan_range,
-                    new_voltages=self._new_voltages)
+                    new_voltages=self._new_voltages,
+                    rising_flank=self._rising_flank)
 
 
 class AveragingEvaluator(Evaluator):
-- 
2.43.0


From 8f3d7957ad63cc5d40371ef3e4415a674106ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 06/54] fix: store the transition width and the sample rate
 with the lead evaluators

---
 qtune/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index df6173b..c1be1db 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -199,6 +199,7 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
+                    sample_rate=self.sample_rate,
                     evaluation_arguments=self.evaluation_arguments)
 
 
@@ -574,7 +575,7 @@ class LeadTransition(Evaluator):
                     transition_positions=self.transition_positions,
                     shifting_gates=self._shifting_gates,
                     charge_diagram_width=self._charge_diagram_width,
-                    transition_width=.2e-3)
+                    transition_width=self.transition_width)
 
 
 class SensingDot1D(Evaluator):
-- 
2.43.0


From c3cd57a3e8ff542ce317bd8ae218e430e79a939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 07/54] fix: rebase the last voltages of a tuner by gate names

---
 qtune/parameter_tuner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 6f0e6e9..7d76f7a 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -107,7 +107,9 @@ class ParameterTuner(metaclass=HDF5Serializable):
         if self.last_voltages is None or self.last_voltages.empty:
             self._last_voltage = new_voltages
         else:
-            index_intersection = self.last_voltages.index.intersection(new_voltages)
+            index_intersection = self.last_voltages.index.intersection(new_voltages.index)
+            # the previous voltages may have been recorded as tuned or evaluatable voltages
+            self._last_voltage = self._last_voltage.copy()
             self._last_voltage[index_intersection] = new_voltages[index_intersection]
 
     @property
-- 
2.43.0


From d93831a7fce652addbb3bf23eb1fd72380223df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 08/54] fix: rebase the position of a gradient estimator by
 gate names

---
 qtune/gradient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 66e5f24..95af44c 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -44,7 +44,8 @@ class GradientEstimator(metaclass=HDF5Serializable):
 
     @current_position.setter
     def current_position(self, new_positions: pd.Series):
-        index_intersection = new_positions.index.intersection(self.current_position)
+        index_intersection = new_positions.index.intersection(self._current_position.index)
+        self._current_position = self._current_position.copy()
         self._current_position[index_intersection] = new_positions[index_intersection]
 
     def change_position(self, new_position: pd.Series):
-- 
2.43.0


From 8d21b9ae69c7290dc2f93c3f498252fb7e190a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 09/54] fix: discard the evaluation status of the autotuner at
 restarts and target changes

---
 qtune/autotuner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index cfed351..b0e6841 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -216,6 +216,7 @@ class Autotuner(metaclass=HDF5Serializable):
         for i, target_change in enumerate(target_changes):
             self.tuning_hierarchy[i].target = target_change
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
 
     def __getstate__(self):
@@ -294,6 +295,7 @@ class Autotuner(metaclass=HDF5Serializable):
         """ Reads new voltages and communicates them to the member classes. This function can be called when the
         experiment has been configured manually."""
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
         current_voltages = self._experiment.read_gate_voltages()
         for par_tuner in self.tuning_hierarchy:
-- 
2.43.0


From 224a319b6939b6e025aa97f812601b05005bab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 10/54] fix: clear the queued steps of a SubsetTuner when the
 remaining step needs no shortening

---
 qtune/parameter_tuner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 7d76f7a..17a5194 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -274,6 +274,9 @@ class SubsetTuner(ParameterTuner):
                 self._number_queued_steps = min(number_of_steps, self._maximal_step_number)
             self._number_queued_steps -= 1
             step *= self._maximal_step_size / np.linalg.norm(step)
+        else:
+            # the full step is taken, no further steps remain
+            self._number_queued_steps = 0
 
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
-- 
2.43.0


From 3600e193d1cb49ddb80f370fd294db2758bc4608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 11/54] fix: drop the queued steps of a SubsetTuner at a
 restart

---
 qtune/parameter_tuner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 17a5194..48276a8 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -281,6 +281,10 @@ class SubsetTuner(ParameterTuner):
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
 
+    def restart(self, new_voltages):
+        self._number_queued_steps = 0
+        super().restart(new_voltages)
+
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
-- 
2.43.0


From 54e6a40f116ad3eb3a462c42d60d79a0006fc9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 12/54] fix: hand each gradient estimator the variance of its
 own parameter

---
 qtune/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index f32e986..858f9d3 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -245,7 +245,8 @@ class NewtonSolver(Solver):
     def update_after_step(self, position: pd.Series, values: pd.Series, variances: pd.Series):
         for estimator, value, value_index, variance in zip(self._gradient_estimators,
                                                            values[self._current_values.index],
-                                                           self._current_values.index, variances):
+                                                           self._current_values.index,
+                                                           variances[self._current_values.index]):
             if not math.isnan(self.target.desired[value_index]):
                 estimator.update(position, value, variance, is_new_position=True)
         self._current_position = position[self._current_position.index]
-- 
2.43.0


From 0111d51076277eb404ecf8c90a18a681141cb987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 13/54] fix: initialize the Kalman estimator of the
 SelfInitializingKalmanEstimator

---
 qtune/gradient.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 95af44c..b87811f 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -381,8 +381,8 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
                  kalman_gradient_args: Optional[dict]=None):
         self._finite_difference_estimator = finite_difference_estimator
         self._kalman_estimator = kalman_estimator
-        self._kalman_arguments = kalman_arguments
-        self._kalman_gradient_arguments = kalman_gradient_args
+        self._kalman_arguments = kalman_arguments or dict()
+        self._kalman_gradient_arguments = kalman_gradient_args or dict()
 
     # TODO: This implementation is incomplete
     @classmethod
@@ -394,7 +394,7 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
         finite_differences_estimator = FiniteDifferencesGradientEstimator(current_position=current_position,
                                                                           epsilon=epsilon,
                                                                           symmetric=symmetric)
-        kalman_arguments = dict(maximum_covariance=maximum_covariance)
+        kalman_arguments = dict(maximum_covariance=maximum_covariance, epsilon=epsilon)
 
         return cls(finite_difference_estimator=finite_differences_estimator,
                    kalman_arguments=kalman_arguments)
@@ -447,7 +447,7 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
             kalman_gradient = KalmanGradient(n_pos_dim=initial_estimate.size,
                                              n_values=1,
                                              initial_gradient=initial_estimate,
-                                             initial_covariance_matrix=self.finite_difference_estimator.covariance()
+                                             initial_covariance_matrix=self.finite_difference_estimator.covariance(),
                                              **self._kalman_gradient_arguments)
             self._kalman_estimator = KalmanGradientEstimator(kalman_gradient=kalman_gradient,
                                                              current_position=position[initial_estimate.index],
-- 
2.43.0


From 5d984d47763383a09a4a52789036539d44594a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 14/54] fix: restart the estimators owned by a
 SelfInitializingKalmanEstimator

---
 qtune/gradient.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index b87811f..6717500 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -454,6 +454,11 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
                                                              current_value=value,
                                                              **self._kalman_arguments)
 
+    def restart(self, new_position):
+        self._finite_difference_estimator.restart(new_position)
+        if self.kalman_estimator:
+            self.kalman_estimator.restart(new_position)
+
     def to_hdf5(self):
         return dict(finite_difference_estimator=self._finite_difference_estimator,
                     kalman_estimator=self._kalman_estimator,
-- 
2.43.0


From bf05d0add8a3422fe00f0214d88d3cca6ab9253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 15/54] fix: accept the tuned parameters in the
 NelderMeadSolver like the other solvers

---
 qtune/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 858f9d3..8243a4e 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -370,7 +370,7 @@ class NelderMeadSolver(Solver):
         self._simplex = self._get_sorted_simplex()
         self._simplex.pop()
 
-    def suggest_next_position(self) -> pd.Series:
+    def suggest_next_position(self, tuned_parameters=None) -> pd.Series:
         positions = self.get_positions()
         worst_position = positions[-1]
 
-- 
2.43.0


From 9ca77f74e5b5f49f9fbc2885039870e6b5936d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 16/54] fix: start a new Nelder-Mead iteration after a point
 has entered the simplex

---
 qtune/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/solver.py b/qtune/solver.py
index 8243a4e..e11109b 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -450,6 +450,7 @@ class NelderMeadSolver(Solver):
                 self._insert_into_simplex(position, values)
             else:
                 self._insert_into_simplex(reflected_pos, reflected_val)
+            self._state = self.State.start_iteration
 
         elif self._state == self.State.contract_outside:
             reflected_pos, reflected_val = self._reflected_point
@@ -458,6 +459,7 @@ class NelderMeadSolver(Solver):
             contraction_cost = self.cost_function(values)
             if contraction_cost < reflection_cost:
                 self._insert_into_simplex(position, values)
+                self._state = self.State.start_iteration
 
             else:
                 self._state = self.State.shrink
@@ -468,6 +470,7 @@ class NelderMeadSolver(Solver):
             contraction_cost = self.cost_function(values)
             if contraction_cost < worst_cost:
                 self._insert_into_simplex(position, values)
+                self._state = self.State.start_iteration
 
             else:
                 self._state = self.State.shrink
@@ -479,6 +482,7 @@ class NelderMeadSolver(Solver):
                 for shrink_point in self._shrunk_points:
                     self._insert_into_simplex(*shrink_point)
                 self._shrunk_points = []
+                self._state = self.State.start_iteration
 
         else:
             # we just got a point without requesting it
-- 
2.43.0


From a9216e14598ea7412dad57733950716e5aba0dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 17/54] fix: make the state of the NelderMeadSolver storable
 and reloadable

---
 qtune/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index e11109b..51ed765 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -285,7 +285,7 @@ class NelderMeadSolver(Solver):
                  current_values: pd.Series,
                  reflected_point: Optional[Tuple[pd.Series, pd.Series]] = None,
                  shrunk_points: Optional[Sequence[Tuple[pd.Series, pd.Series]]] = None,
-                 cost_function: Callable = lambda v: np.sum(v * v),
+                 cost_function: Optional[Callable] = None,
                  state='built_up'):
         """
 
@@ -345,7 +345,7 @@ class NelderMeadSolver(Solver):
         if self._cost_function:
             return self._cost_function(values)
         else:
-            np.sum(values * values)
+            return np.sum(values * values)
 
     def get_costs(self):
         return [self.cost_function(values) for _, values in self.simplex]
@@ -506,7 +506,7 @@ class NelderMeadSolver(Solver):
                     reflected_point=self._reflected_point,
                     shrunk_points=self._shrunk_points,
                     cost_function=self._cost_function,
-                    state=str(self._state))
+                    state=self._state.value)
 
 
 class ForwardingSolver(Solver):
-- 
2.43.0


From 5adc04aa0a94dadaca95625d00e004a0f4081bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 18/54] fix: let restarts and target changes reach the
 NelderMeadSolver

---
 qtune/solver.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 51ed765..0417d47 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -88,6 +88,7 @@ class Solver(metaclass=HDF5Serializable):
     @current_position.setter
     def current_position(self, new_position: pd.Series):
         labels = self._current_position.index.intersection(new_position.index)
+        self._current_position = self._current_position.copy()
         self._current_position[labels] = new_position[labels]
 
     @property
@@ -328,10 +329,6 @@ class NelderMeadSolver(Solver):
                    current_values=current_values,
                    simplex=simplex)
 
-    @property
-    def target(self):
-        return self._target
-
     @property
     def simplex(self) -> Deque[Tuple[pd.Series, pd.Series]]:
         """Sorted chronologically if state=built_up otherwise sorted by cost"""
@@ -350,10 +347,6 @@ class NelderMeadSolver(Solver):
     def get_costs(self):
         return [self.cost_function(values) for _, values in self.simplex]
 
-    @property
-    def current_position(self) -> pd.Series:
-        return self._current_position
-
     @property
     def current_values(self) -> pd.Series:
         return self._current_values
-- 
2.43.0


From 520375941779e82846986e9c2784de0ed8990e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 19/54] fix: do not modify the data passed to
 find_lead_transition

---
 qtune/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/util.py b/qtune/util.py
index a46e05d..4577579 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -74,7 +74,7 @@ def find_lead_transition(data: np.ndarray, center: float, scan_range: float, npo
     if len(data.shape) == 2:
         y = np.mean(data, 0)
     elif len(data.shape) == 1:
-        y = data
+        y = np.array(data)
     else:
         print('data must be a one or two dimensional array!')
         return np.nan
-- 
2.43.0


From be3b0eb789a5d2b354e1823128a85df4cb28822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 20/54] fix: append autotuners whose gradients are not
 estimated yet to the history

---
 qtune/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index c074e76..6139bbd 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -560,11 +560,11 @@ def extract_gradients_from_hierarchy(tuning_hierarchy) -> (Dict[str, pd.Series],
         if isinstance(tuner.solver, qtune.solver.NewtonSolver):
             for i, grad_est in enumerate(tuner.solver.gradient_estimators):
                 if grad_est.estimate() is None:
-                    gradients[tuner.solver.target.index[i]] = pd.Series
+                    gradients[tuner.solver.target.index[i]] = pd.Series(dtype=float)
                 else:
                     gradients[tuner.solver.target.index[i]] = grad_est.estimate()
                 if grad_est.covariance() is None:
-                    covariances[tuner.solver.target.index[i]] = pd.Series
+                    covariances[tuner.solver.target.index[i]] = pd.DataFrame()
                 else:
                     covariances[tuner.solver.target.index[i]] = grad_est.covariance()
     return gradients, covariances
-- 
2.43.0


From f477d6fde718a28968408cc1443d897945dbb827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 21/54] fix: return the data read by history.read_files

---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 6139bbd..130dd9f 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -116,7 +116,7 @@ def read_files(file_or_files, reserved=None):
 
                 data.append((entry, entry_data))
 
-    return data.sort(key=operator.itemgetter(0))
+    return sorted(data, key=operator.itemgetter(0))
 
 
 class History:
-- 
2.43.0


From be16fe33d10e3ac88053282f18d69c8af412ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 22/54] fix: iterate does not fail on logging the distance of
 parameters without last value

If a target category is only specified for some parameters of a group, the others have no last value. The
KeyError in the log statement left the autotuner in a changed but unsaved state.
---
 qtune/autotuner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index b0e6841..d0b6ba5 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -283,7 +283,7 @@ class Autotuner(metaclass=HDF5Serializable):
                     self.logger.info("The distance to their target is: ")
                     self.logger.info(self.get_current_tuner().target["desired"] -
                                      self.get_current_tuner().last_parameters_and_variances[0]
-                                     [self.get_current_tuner().target.index])
+                                     .reindex(self.get_current_tuner().target.index))
         else:
             self._voltages_to_set = self.get_current_tuner().get_next_voltages(tuned_parameters=self.tuned_parameters)
             self._current_tuner_status = False
-- 
2.43.0


From dd499a377f1402ec8debf5e9ba7a7d72e33f303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 23/54] fix: a tuner with a partially specified target can be
 rebuilt from its stored state

Only the completely specified parameters have last values, but the constructor required them for all parameters.
---
 qtune/parameter_tuner.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 48276a8..4f1198b 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -71,7 +71,9 @@ class ParameterTuner(metaclass=HDF5Serializable):
             # storage_path = r'D:\debug_%d.txt' % random.randint(0,10000)
             # with open(storage_path, 'wb') as file:
             #     file.write(data)
-            assert set(self.target.dropna(how='all').index).issubset(set(last_parameter_values.index))
+            not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
+                                            axis='columns').dropna().index
+            assert set(not_na_index).issubset(set(last_parameter_values.index))
             self._last_parameter_values = last_parameter_values
 
             # import os
@@ -82,7 +84,9 @@ class ParameterTuner(metaclass=HDF5Serializable):
                                             axis='columns').dropna().index
             self._last_parameters_variances = pd.Series(index=not_na_index)
         else:
-            assert set(self.target.index).issubset(set(last_parameters_variances.index))
+            not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
+                                            axis='columns').dropna().index
+            assert set(not_na_index).issubset(set(last_parameters_variances.index))
             self._last_parameters_variances = last_parameters_variances
 
         self._evaluators = tuple(evaluators)
-- 
2.43.0


From 3c764d59e7a01543bf20b1608b9cf857f9d96ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 24/54] fix: treat a failed expensive evaluation of the sensing
 dot as failed evaluation

---
 qtune/parameter_tuner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 4f1198b..a88e2d7 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -377,6 +377,10 @@ class SensingDotTuner(ParameterTuner):
                 self._last_parameter_values[current_parameter.index] = current_parameter[current_parameter.index]
                 self._last_parameters_variances[current_parameter.index] = variances[current_parameter.index]
 
+                if current_parameter.isnull().values.any():
+                    self._last_evaluation_failed = True
+                    return False
+
             self.solver.update_after_step(voltages, current_parameter, variances)
             return False
         else:
-- 
2.43.0


From 4c50ecb6d8da58c54010d9ca492c22a42f819c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 25/54] fix: leave parameters without desired value unchanged
 in the Newton step

---
 qtune/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 0417d47..b160dd1 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -230,7 +230,8 @@ class NewtonSolver(Solver):
         # our jacobian is sufficiently accurate
         # nan targets are replaced with the current values
 
-        required_diff = self.target.desired.add(-1 * self._current_values, fill_value=0).fillna(0)
+        desired = self.target.desired.fillna(self._current_values)
+        required_diff = desired.add(-1 * self._current_values, fill_value=0).fillna(0)
 
         jacobian = self.jacobian[self._current_position.index]
 
-- 
2.43.0


From d3d486adbe642cd5ec58f6b0f13ca9d35a558414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 26/54] fix: request the base point first in asymmetric finite
 differences

---
 qtune/gradient.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 6717500..3285483 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -149,10 +149,11 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
             measured_points = [v[gates] for v, *_ in self._stored_measurements]
 
             if len(measured_points) == 0:
-                #  start with arbitrary position
                 self.logger.debug('Requiring first measurement in gradient calculation.')
                 first_step = np.zeros_like(self._current_position[gates])
-                first_step[0] += 1
+                if self._symmetric_calculation:
+                    #  start with arbitrary position, otherwise with the base point
+                    first_step[0] += 1
                 self._requested_measurements.append(self._current_position[gates] + first_step * self._epsilon[gates])
 
             elif self._symmetric_calculation:
-- 
2.43.0


From 3adfb97bde87bde6f8fbcac5d572d54e6dd2917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:09 +0000
Subject: [PATCH 27/54] fix: do not use the centre as part of a symmetric
 finite difference pair

---
 qtune/gradient.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 3285483..dca9ae5 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -191,6 +191,11 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 self._stored_measurements.append((position[self._current_position.index], value, variance))
 
         elif self._current_estimate is None:
+            if self._symmetric_calculation and \
+                    (position[self._current_position.index] == self._current_position).all():
+                # the centre is not part of any symmetric pair
+                return
+
             self._stored_measurements.append((position[self._current_position.index], value, variance))
 
             positions, values, variances = zip(*self._stored_measurements)
-- 
2.43.0


From b36b386e8bb102a33f58043645d48601d1e009e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 28/54] fix: let the moving average handle signals shorter than
 its width

---
 qtune/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/util.py b/qtune/util.py
index 4577579..5f02414 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -108,10 +108,10 @@ def nth_diff(data: np.ndarray, n: int):
 
 
 def moving_average_filter(data: np.ndarray, width) -> np.ndarray:
-    data = data.squeeze()
+    data = np.atleast_1d(data.squeeze())
     n_points = data.size
     smoothed = np.zeros((n_points, ))
-    for i in range(width):
+    for i in range(min(width, n_points)):
         smoothed[i] = sum(data[0:i + 1])
         smoothed[i] *= 1. / float(i + 1)
     for i in range(width, n_points, 1):
-- 
2.43.0


From f763261d2f66649010f48568096b30f6b5902f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 29/54] fix: restore an array stored in several places as one
 shared object

---
 qtune/storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index c016279..2e920f7 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -275,6 +275,7 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
         if isinstance(result, h5py.Reference):
             return _from_hdf5(root, result, deserialized)
         else:
+            deserialized[hdf5_obj.id] = result
             return result
 
     else:
-- 
2.43.0


From 896ebeacf5ab0dd3982e2ebba3c160725f0b81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 30/54] fix: decode the entries of stored string arrays

---
 qtune/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index 2e920f7..5509df2 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -270,6 +270,8 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
                 return None
 
         result = np.asarray(hdf5_obj)
+        if h5py.check_dtype(vlen=hdf5_obj.dtype) is not None:
+            result = np.array([_decode(entry) for entry in result.ravel()], dtype=object).reshape(result.shape)
         if result.shape == ():
             result = result[()]
         if isinstance(result, h5py.Reference):
-- 
2.43.0


From c9b3dd14e2e7fbdffe2efdc1cfd598182918f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 31/54] fix: refuse dictionary keys that HDF5 would split into
 nested groups

---
 qtune/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index 5509df2..122789f 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -88,6 +88,8 @@ def _to_hdf5(hdf5_parent_group: h5py.Group, name, obj, serialized):
         hdf5_group = hdf5_parent_group.create_group(name)
         hdf5_group.attrs['#type'] = 'dict'
         for key, value in obj.items():
+            if '/' in key:
+                raise ValueError('Keys of stored dictionaries may not contain "/" as it separates HDF5 groups', key)
             _to_hdf5(hdf5_group, key, value, serialized)
         serialized[id(obj)] = hdf5_group
         return
-- 
2.43.0


From e3399c193e2e831cd73463d55242f04fed6aa387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 32/54] fix: refuse dictionary keys that HDF5 would truncate at
 NUL

---
 qtune/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 122789f..8d27563 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -88,8 +88,9 @@ def _to_hdf5(hdf5_parent_group: h5py.Group, name, obj, serialized):
         hdf5_group = hdf5_parent_group.create_group(name)
         hdf5_group.attrs['#type'] = 'dict'
         for key, value in obj.items():
-            if '/' in key:
-                raise ValueError('Keys of stored dictionaries may not contain "/" as it separates HDF5 groups', key)
+            if '/' in key or '\0' in key:
+                raise ValueError('Keys of stored dictionaries may not contain "/", which separates HDF5 groups, or NUL, '
+                                 'which ends HDF5 names', key)
             _to_hdf5(hdf5_group, key, value, serialized)
         serialized[id(obj)] = hdf5_group
         return
-- 
2.43.0


From 4f36846d87efd0ad4912261ae75ecaeb69f87aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 33/54] fix: do not wait forever for a writer that died before
 the stop marker

---
 qtune/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 8d27563..d9ab90a 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -362,8 +362,8 @@ class AsynchronousHDF5Writer:
     def join(self):
         """Stop writing and join thread."""
         if self._worker.is_alive():
+            # the worker might fail before it gets to the stop marker, so wait for the worker and not for the queue
             self._queue.put(None)
-            self._queue.join()
 
         elif self._queue.qsize():
             warnings.warn("Storage queue contains data but the writer worker is already dead.")
-- 
2.43.0


From a4276b8b496b8ef67c5790b6834bd624345b74ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 34/54] fix: track parameters whose target is completed by a
 change of targets

---
 qtune/parameter_tuner.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index a88e2d7..0facc51 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -131,6 +131,12 @@ class ParameterTuner(metaclass=HDF5Serializable):
     @target.setter
     def target(self, changes):
         self.solver.target = changes
+        # the change may have completed the target of further parameters, which are relevant from now on
+        not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
+                                        axis='columns').dropna().index
+        index = self._last_parameter_values.index.append(not_na_index.difference(self._last_parameter_values.index))
+        self._last_parameter_values = self._last_parameter_values.reindex(index)
+        self._last_parameters_variances = self._last_parameters_variances.reindex(index)
 
     @property
     def parameters(self) -> Sequence[str]:
-- 
2.43.0


From a663ce5dbf50af0eb519f5368b38c55639504710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 35/54] fix: evaluate the one-dimensional sensing dot scan with
 current numpy

---
 qtune/evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index c1be1db..fcce360 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -643,7 +643,7 @@ class SensingDot1D(Evaluator):
         raw_x_data = np.squeeze(raw_data[0])
         raw_y_data = np.squeeze(raw_data[1])
         coef = np.polynomial.polynomial.polyfit(raw_x_data, raw_y_data, deg=10)
-        polynomial_approximation = np.polynomial.poly1d(coef[::-1])
+        polynomial_approximation = np.poly1d(coef[::-1])
         derivative_approximation = np.diff(polynomial_approximation(raw_x_data))
         cutoff = len(raw_x_data) // 16
         if self._rising_flank:
@@ -653,7 +653,7 @@ class SensingDot1D(Evaluator):
             steepest_point = np.argmin(derivative_approximation[cutoff:-cutoff])
             self.optimal_signal = np.min(derivative_approximation)
         self.optimal_position = raw_x_data[steepest_point + cutoff]
-        self.current_signal = derivative_approximation[0.5 * self.measurements[0].options['N_points']]
+        self.current_signal = derivative_approximation[int(0.5 * self.measurements[0].options['N_points'])]
 
         return self.current_signal, self.optimal_signal, self.optimal_position
 
-- 
2.43.0


From db24e02eaf983e83dc4772ae3ae38cc9ee12126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 36/54] fix: restore the gate voltages if the scan of a lead
 transition fails

---
 qtune/evaluator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index fcce360..8d9ece9 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -540,9 +540,11 @@ class LeadTransition(Evaluator):
         raw_data = []
         for measurement, shift_gate in zip(self.measurements, self._shifting_gates):
             shift = pd.Series(-1. * self._charge_diagram_width, [shift_gate])
-            self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
-            raw_data.append(self.experiment.measure(measurement))
-            self.experiment.set_gate_voltages(current_gate_voltages)
+            try:
+                self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
+                raw_data.append(self.experiment.measure(measurement))
+            finally:
+                self.experiment.set_gate_voltages(current_gate_voltages)
         transition_positions, error = self.process_raw_data(raw_data=raw_data)
 
         # TODO: this should be obsolete
-- 
2.43.0


From 5dca89d1ebc3207f98076f3d8a43dfd34170c67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 37/54] fix: evaluate every lead transition with the settings
 of its own scan

---
 qtune/evaluator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 8d9ece9..2a751ee 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -557,15 +557,15 @@ class LeadTransition(Evaluator):
         error = pd.Series()
         self._raw_x_data = []
         self._raw_y_data = []
-        for data, gate in zip(raw_data, self._shifting_gates):
+        for data, gate, measurement in zip(raw_data, self._shifting_gates, self.measurements):
             if len(data.shape) == 2:
                 data = data.mean(0)
             transition_pos = \
-                qtune.util.new_find_lead_transition_index(data, int(.2e-3 / self.measurements[0].options["range"] *
-                                                          self.measurements[0].options["N_points"]))
-            x_data = np.linspace(start=self._measurements[0].options['center'] - self.measurements[0].options['range'],
-                                 stop=self._measurements[0].options['center'] + self.measurements[0].options['range'],
-                                 num=self.measurements[0].options['N_points'])
+                qtune.util.new_find_lead_transition_index(data, int(.2e-3 / measurement.options["range"] *
+                                                          measurement.options["N_points"]))
+            x_data = np.linspace(start=measurement.options['center'] - measurement.options['range'],
+                                 stop=measurement.options['center'] + measurement.options['range'],
+                                 num=measurement.options['N_points'])
             self._raw_x_data.append(x_data)
             self._raw_y_data.append(data)
             self.transition_positions["position_" + gate] = x_data[transition_pos]
-- 
2.43.0


From 31473a4eedac8a4dd50b8a2f07e7b8d80a9d2653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 38/54] fix: use the configured width of the lead transition

---
 qtune/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 2a751ee..c78304e 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -561,7 +561,7 @@ class LeadTransition(Evaluator):
             if len(data.shape) == 2:
                 data = data.mean(0)
             transition_pos = \
-                qtune.util.new_find_lead_transition_index(data, int(.2e-3 / measurement.options["range"] *
+                qtune.util.new_find_lead_transition_index(data, int(self.transition_width / measurement.options["range"] *
                                                           measurement.options["N_points"]))
             x_data = np.linspace(start=measurement.options['center'] - measurement.options['range'],
                                  stop=measurement.options['center'] + measurement.options['range'],
-- 
2.43.0


From fa716670160591a14cb313d91161a923a523b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 39/54] fix: keep re-evaluated groups and restarted states in
 the history row of their voltages

---
 qtune/history.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 130dd9f..5f5be69 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -310,10 +310,9 @@ class History:
         if voltages.equals(self._data_frame[sorted(self.gate_names)].iloc[-1]):
             # stay in the row
             self._paths_for_reload[-1] = path
-            start = self._data_frame['tuner_index'].iloc[-1]
-            new_information = self.read_autotuner_to_data_frame(autotuner, start=start, end=evaluated_tuner_index)
+            new_information = self.read_autotuner_to_data_frame(autotuner, end=evaluated_tuner_index)
             self._data_frame.loc[self._data_frame.index[-1], new_information.columns] = new_information.iloc[0]
-            new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, start=start, end=evaluated_tuner_index)
+            new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, end=evaluated_tuner_index)
             if not new_evaluator_data.empty:
                 self._evaluator_data.loc[self._evaluator_data.index[-1], new_evaluator_data.columns] = \
                     new_evaluator_data.iloc[0]
-- 
2.43.0


From 0ea1f2eb0534e32b4345d7a4c5d9884a615b7860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 40/54] fix: give states without evaluated groups a row of
 evaluator data in the history

---
 qtune/history.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 5f5be69..1b1f73d 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -321,7 +321,9 @@ class History:
             new_information = self.read_autotuner_to_data_frame(autotuner, end=evaluated_tuner_index)
             self._data_frame = self._data_frame.append(new_information, ignore_index=True, sort=True)
             new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, end=evaluated_tuner_index)
-            self._evaluator_data = self._evaluator_data.append(new_evaluator_data, ignore_index=True, sort=True)
+            # a state without evaluated groups takes a row as well
+            self._evaluator_data = self._evaluator_data.append(new_evaluator_data.reindex([0]), ignore_index=True,
+                                                               sort=True)
 
     def load_directory(self, path):
         """
-- 
2.43.0


From d12d76c0e159823c0edbe0446cd1234cfcd278e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 41/54] fix: translate python indices to the MATLAB indices of
 the same elements

---
 qtune/mat2py.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qtune/mat2py.py b/qtune/mat2py.py
index 9124f58..bccd06e 100644
--- a/qtune/mat2py.py
+++ b/qtune/mat2py.py
@@ -73,7 +73,7 @@ def _set_field(eval_str, field, val_str):
 
 def _transform_int(py_idx):
     if py_idx < 0:
-        return 'end - %d' % abs(py_idx)
+        return 'end - %d' % (abs(py_idx) - 1)
     else:
         return str(py_idx + 1)
 
@@ -94,17 +94,17 @@ def _transform_slice(python_slice):
     
     if python_slice.start is None:
         start = '1' if step > 0 else 'end'
-    elif idx.start < 0:
-        start = '(end - %d)' % abs(python_slice.start)
     else:
-        start = str(python_slice.start + 1 if step > 0 else python_slice.start)
+        start = '(%s)' % _transform_int(python_slice.start)
     
+    # the stop index of python is excluded, the one of MATLAB is included
+    offset = -1 if step > 0 else 1
     if python_slice.stop is None:
         stop = 'end' if step > 0 else '1'
     elif python_slice.stop < 0:
-        stop = '(end - %d)' % abs(python_slice.stop)
+        stop = '(end - %d)' % (abs(python_slice.stop) - 1 - offset)
     else:
-        stop = str(python_slice.stop if step > 0 else python_slice.stop + 1)
+        stop = str(python_slice.stop + 1 + offset)
     
     return '%s:%d:%s' % (start, step, stop)
 
-- 
2.43.0


From 06b2dd32aa8d0ed51e4c40ceb07cc0d434ad96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 42/54] fix: let the GUI log through its logger

---
 qtune/gui.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 41ac735..2a5a9ad 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -563,9 +563,8 @@ class GUI(QtWidgets.QMainWindow):
         self._continuous = False
         self._stepped = False
         self._stop = False
-        self._thread.start()
-
         self._logger = logger
+        self._thread.start()
 
         self._plot_organizer = []
         self._parameter_windows = []
@@ -684,13 +683,13 @@ class GUI(QtWidgets.QMainWindow):
 
     def _join_worker(self):
         if self._thread.is_alive():
-            self._logger.info('Joining thread')
+            self.logger.info('Joining thread')
         self._stop = True
         self._thread.join()
 
     def restart_thread(self):
         self._join_worker()
-        self._logger.info('Restarting thread')
+        self.logger.info('Restarting thread')
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
@@ -707,7 +706,7 @@ class GUI(QtWidgets.QMainWindow):
                     try:
 
                         if self.auto_tuner.is_tuning_complete():
-                            self._logger.info('Tuning completed')
+                            self.logger.info('Tuning completed')
                             self.pause()
                         else:
                             self.auto_tuner.iterate()
@@ -718,10 +717,10 @@ class GUI(QtWidgets.QMainWindow):
                             self._update_plots.emit()
 
                     except Exception:
-                        self._logger.exception('Error during auto tuner iteration: Pausing...')
+                        self.logger.exception('Error during auto tuner iteration: Pausing...')
                         self.pause()
                 else:
-                    self._logger.error('No Autotuner: Pausing...')
+                    self.logger.error('No Autotuner: Pausing...')
                     self.pause()
 
                 self._stepped = False
@@ -731,14 +730,14 @@ class GUI(QtWidgets.QMainWindow):
 
     def start(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
         elif self._continuous:
-            self._logger.info('Already started')
+            self.logger.info('Already started')
 
         else:
-            self._logger.info('Starting worker thread')
+            self.logger.info('Starting worker thread')
 
         self._continuous = True
         self._start_btn.setEnabled(False)
@@ -747,19 +746,19 @@ class GUI(QtWidgets.QMainWindow):
 
     def step(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
-        self._logger.info('Order worker to do one step')
+        self.logger.info('Order worker to do one step')
         self._stepped = True
 
     def pause(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread already dead')
+            self.logger.warning('Worker thread already dead')
         elif self._continuous:
-            self._logger.info('Pausing worker thread')
+            self.logger.info('Pausing worker thread')
         elif not self._stepped:
-            self._logger.info('Already paused')
+            self.logger.info('Already paused')
 
         self._continuous = False
         self._stepped = False
-- 
2.43.0


From d1de71e6bbf5dd5228116413eec88d13e7c79c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 43/54] fix: stop the running GUI worker when it is told to
 stop

---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 2a5a9ad..bf3c054 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -701,7 +701,7 @@ class GUI(QtWidgets.QMainWindow):
             while not (self._stop or self._continuous or self._stepped):
                 time.sleep(0.05)
 
-            while self._continuous or self._stepped and not self._stop:
+            while (self._continuous or self._stepped) and not self._stop:
                 if self.auto_tuner:
                     try:
 
-- 
2.43.0


From ac420fb3ab8e5cc4a4b289171180c9033ee21475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 44/54] fix: let qtune.sm be imported

---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index c7cfa07..dc53340 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -225,7 +225,7 @@ class LegacyDQDRefactored(BasicDQD):
 
 
 class MatlabEvaluator(Evaluator):
-    def __init__(self, experiment: qtune.sm.LegacyDQDRefactored, **kwargs):
+    def __init__(self, experiment: LegacyDQDRefactored, **kwargs):
         super().__init__(experiment, **kwargs)
 
     def evaluate(self):
-- 
2.43.0


From c67f211cc3ec77ae7342d13c944f9cf164232a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 45/54] fix: convert numpy scalars for MATLAB with current
 numpy

---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index dc53340..b4cdf90 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -148,7 +148,7 @@ class SpecialMeasureMatlab:
 
             return self.engine.transpose(casted)
         elif isinstance(obj, np.generic):
-            return float(np.asscalar(obj))
+            return float(obj.item())
         elif isinstance(obj, List):
             return [self.to_matlab(x) for x in obj]
         elif isinstance(obj, Tuple):
-- 
2.43.0


From 02187302707deb78b2382504eddab1773887c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 46/54] fix: run the QQD backend with current numpy

---
 qtune/sm_tune_qqd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 5f5329f..55c31b8 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -98,7 +98,7 @@ class SMTuneQQD(Experiment):
 
         return self.read_gate_voltages()  # set_qqd_gate_voltages
 
-    def tune(self, measurement_name, index: np.int, **kwargs) -> pd.Series:
+    def tune(self, measurement_name, index: int, **kwargs) -> pd.Series:
         # Tune wrapper using the MATLAB syntax
 
         # data ---  args        <<<< contains struct arrays!
@@ -120,9 +120,9 @@ class SMTuneQQD(Experiment):
             vals = list(options.values())
             name_value_pairs = [x for t in zip(keys, vals) for x in t]
 
-            data_view = tune_view(measurement_name, *([np.float(index)] + name_value_pairs))
+            data_view = tune_view(measurement_name, *([float(index)] + name_value_pairs))
         else:
-            data_view = tune_view(measurement_name, np.float(index))
+            data_view = tune_view(measurement_name, float(index))
 
         return pd.Series({'data': data_view})
 
-- 
2.43.0


From f74730bda7d87f46988e429d82d8a200fefe0a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 47/54] fix: do not reject every position of QQDResp by default

---
 qtune/sm_tune_qqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 55c31b8..f7673a6 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -466,7 +466,7 @@ class QQDResp(Evaluator):
         else:
             self._min_position = pd.Series(index=self.parameters, data=min_position)
         if max_position is None:
-            self._max_position = pd.Series(index=self.parameters, data=-np.inf)
+            self._max_position = pd.Series(index=self.parameters, data=np.inf)
         elif isinstance(max_position, pd.Series):
             self._max_position = max_position
         else:
-- 
2.43.0


From f4ad9d5788dec1523cfe660c84b278c73d4dc05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 48/54] fix: convert tuples for MATLAB to tuples

---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index b4cdf90..39b50d9 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -152,7 +152,7 @@ class SpecialMeasureMatlab:
         elif isinstance(obj, List):
             return [self.to_matlab(x) for x in obj]
         elif isinstance(obj, Tuple):
-            return (self.to_matlab(x) for x in obj)
+            return tuple(self.to_matlab(x) for x in obj)
         elif isinstance(obj, Dict):
             return {x: self.to_matlab(obj[x]) for x in obj}
         elif isinstance(obj, Set):
-- 
2.43.0


From 3e4ce559d26e29f3152e394ded290d88ba7cf5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 49/54] fix: show the selected run in a reload window

---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index bf3c054..3faf7ea 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -407,7 +407,7 @@ class ReloadWidget(pg.LayoutWidget):
         tune_run_label = QtWidgets.QLabel('Reload tune run number')
         self.addWidget(tune_run_label, 1, 1)
         self.tune_run_line = QtWidgets.QLineEdit()
-        self.tune_run_line.setText('1')
+        self.tune_run_line.setText(str(self._tune_run_number))
         self.tune_run_line.setValidator(QtGui.QIntValidator())
         self.tune_run_line.editingFinished.connect(self.refreh_tune_run_number)
         self.addWidget(self.tune_run_line, 2, 1)
-- 
2.43.0


From c7a1c423014fb0ec1aeddac16b0859d470651b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 50/54] fix: hand a reloaded autotuner to all open reload
 windows

---
 qtune/gui.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 3faf7ea..730dc5b 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -574,7 +574,8 @@ class GUI(QtWidgets.QMainWindow):
 
     @log_exceptions('plotting')
     def _close_child(self, window: QtWidgets.QWidget, event: QtGui.QCloseEvent):
-        for child_list in (self._plot_organizer, self._parameter_windows, self._gradient_windows, self._raw_data_windows):
+        for child_list in (self._plot_organizer, self._parameter_windows, self._gradient_windows, self._raw_data_windows,
+                           self._reload_windows):
             try:
                 child_list.remove(window)
                 break
@@ -606,6 +607,8 @@ class GUI(QtWidgets.QMainWindow):
     @log_exceptions('plotting')
     def load_auto_tuner_from_reload_widget(self):
         self._auto_tuner = self.sender().auto_tuner
+        for reload_widget in self._reload_windows:
+            reload_widget.auto_tuner = self._auto_tuner
 
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
-- 
2.43.0


From 99a98205e7a8c51466da4521bb85fbcc77f613af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 51/54] fix: record an iteration for the autotuner that made it

---
 qtune/gui.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 730dc5b..7839499 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -705,17 +705,18 @@ class GUI(QtWidgets.QMainWindow):
                 time.sleep(0.05)
 
             while (self._continuous or self._stepped) and not self._stop:
-                if self.auto_tuner:
+                auto_tuner = self.auto_tuner
+                if auto_tuner:
                     try:
 
-                        if self.auto_tuner.is_tuning_complete():
+                        if auto_tuner.is_tuning_complete():
                             self.logger.info('Tuning completed')
                             self.pause()
                         else:
-                            self.auto_tuner.iterate()
+                            auto_tuner.iterate()
 
                             if self.history:
-                                self.history.append_autotuner(self._auto_tuner)
+                                self.history.append_autotuner(auto_tuner)
 
                             self._update_plots.emit()
 
-- 
2.43.0


From 622c906272a70773c5204e0a6c3407edd4f8762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 52/54] fix: give cell subscripts to subsref as subscripts

---
 qtune/mat2py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/mat2py.py b/qtune/mat2py.py
index bccd06e..92fb6f1 100644
--- a/qtune/mat2py.py
+++ b/qtune/mat2py.py
@@ -60,7 +60,7 @@ def _get_item_array(eval_str, idx):
 
 
 def _get_item_cell(eval_str, idx):
-    return r"subsref(%s, struct('type', {'{}'}, 'subs', {'%s'}))" % (eval_str, idx)
+    return r"subsref(%s, struct('type', {'{}'}, 'subs', {{%s}}))" % (eval_str, idx)
 
 
 def _get_field(eval_str, field):
-- 
2.43.0


From 80c9517955b6aaa3cc391876467efbd6d4c53993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:11 +0000
Subject: [PATCH 53/54] fix: return the recorded gradient covariances from the
 history

---
 qtune/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 1b1f73d..6a9dd3d 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -224,8 +224,9 @@ class History:
                                                                  gate_name_2=r'([\w\s\d]+)'))
         df = self._data_frame.filter(regex=regex)
         df = df[sorted(df.columns, key=regex.findall)]
+        df.columns = pd.MultiIndex.from_tuples([regex.findall(name)[0] for name in df.columns], names=[None, None])
 
-        return pd.DataFrame(df, columns=pd.MultiIndex.from_tuples(map(regex.findall, df.columns)))
+        return df
 
     def get_gradient_variances(self, parameter_name) -> pd.DataFrame:
         """
-- 
2.43.0


From 98c29d6f946a5dc1f737d71674f852f357d866a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:46 +0000
Subject: [PATCH 54/54] fix: look gradients up in the history by exact
 parameter name and for any gate name

---
 qtune/history.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 6a9dd3d..58d85f2 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -209,8 +209,8 @@ class History:
         :param parameter_name: Parameter of the gradient of interest.
         :return: Gradient history.
         """
-        regex = re.compile(self._gradient_name.format(parameter_name=parameter_name,
-                                                      gate_name=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_name.format(parameter_name=re.escape(parameter_name),
+                                                            gate_name=r'([^#]+)') + '$')
         return self._data_frame.filter(regex=regex).rename(lambda name: regex.findall(name)[0], axis='columns')
 
     def get_gradient_covariances(self, parameter_name) -> pd.DataFrame:
@@ -219,9 +219,9 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: Gradient covariance history.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'([\w\s\d]+)',
-                                                                 gate_name_2=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'([^#]+)',
+                                                                       gate_name_2=r'([^#]+)') + '$')
         df = self._data_frame.filter(regex=regex)
         df = df[sorted(df.columns, key=regex.findall)]
         df.columns = pd.MultiIndex.from_tuples([regex.findall(name)[0] for name in df.columns], names=[None, None])
@@ -234,9 +234,9 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: History of the diagonal of the covariance matrix.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'(?P<gatename>[\w\s\d]+)',
-                                                                 gate_name_2=r'(?P=gatename)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'(?P<gatename>[^#]+)',
+                                                                       gate_name_2=r'(?P=gatename)') + '$')
         return self._data_frame.filter(regex=regex).rename(columns=lambda name: regex.search(name).group('gatename'))
 
     def read_autotuner_to_data_frame(self, autotuner: qtune.autotuner.Autotuner, start: int = 0,
-- 
2.43.0

