From 57f15915e9022eb92d4bc9ef885b1cee6daf7679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 01/48] fix: save definitions of custom gates used under dagger
 or control

---
 src/python/zquantum/core/circuits/_circuit.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 4fd1a80..a8324f6 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -25,9 +25,18 @@ def _circuit_size_by_operations(operations):
     )
 
 
+def _innermost_gate(operation):
+    """Gate of the operation, stripped of modifiers (such as dagger or control)."""
+    gate = operation.gate
+    while isinstance(gate, (_gates.ControlledGate, _gates.Dagger)):
+        gate = gate.wrapped_gate
+    return gate
+
+
 def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+    gate = _innermost_gate(operation)
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -98,7 +107,7 @@ class Circuit:
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
+            _innermost_gate(operation).matrix_factory.gate_definition
             for operation in self.operations
             if _operation_uses_custom_gate(operation)
         )
-- 
2.43.0


From 60d5d68dd0612c79dd8ace7d61eb9f358ed98cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 02/48] fix: restore symbols of custom gate parameters by name
 when loading circuits

---
 src/python/zquantum/core/circuits/_serde.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index ded3b7f..915df90 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -270,7 +270,10 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
+    symbol_names = [
+        *map(serialize_expr, gate_def.params_ordering),
+        *dict_.get("free_symbols", []),
+    ]
     return gate_def(
         *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
     )
-- 
2.43.0


From e017bc9106ff00bb412d81dcc491edbf27b131ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 03/48] fix: do not add a schema key to the optimization
 results being saved

---
 src/python/zquantum/core/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index f58efc0..180ec86 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -112,9 +112,9 @@ class OrquestraDecoder(json.JSONDecoder):
 
 
 def save_optimization_results(optimization_results: dict, filename: AnyPath):
-    optimization_results["schema"] = SCHEMA_VERSION + "-optimization_result"
+    data = {**optimization_results, "schema": SCHEMA_VERSION + "-optimization_result"}
     with open(filename, "wt") as target_file:
-        json.dump(optimization_results, target_file, cls=OrquestraEncoder)
+        json.dump(data, target_file, cls=OrquestraEncoder)
 
 
 def load_optimization_results(filename: AnyPath):
-- 
2.43.0


From c9bac40e6c098801468b9cf7712af0511a1909fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 04/48] fix: do not overwrite the values of a parameter grid
 evaluation when saving it

---
 src/python/zquantum/core/openfermion/zapata_utils/_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_io.py b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
index 89c6e1a..3769715 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_io.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
@@ -294,12 +294,12 @@ def save_parameter_grid_evaluation(parameter_grid_evaluation, filename):
     """
     full_dict = {}
     full_dict["schema"] = SCHEMA_VERSION + "-parameter_grid_evaluation"
+    full_dict["values_set"] = []
 
     for evaluation in parameter_grid_evaluation:
         value = evaluation["value"].to_dict()
         value["schema"] = SCHEMA_VERSION + "-value_estimate"
-        evaluation["value"] = value
-    full_dict["values_set"] = parameter_grid_evaluation
+        full_dict["values_set"].append({**evaluation, "value": value})
 
     with open(filename, "w") as f:
         f.write(json.dumps(full_dict, indent=2))
-- 
2.43.0


From 55d2b53cc0dc6e4f030284ebeca9b504e5a6e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 05/48] fix: load plain-text operators that have no terms

---
 src/python/zquantum/core/openfermion/utils/operator_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/utils/operator_utils.py b/src/python/zquantum/core/openfermion/utils/operator_utils.py
index cc72bf0..c412bb4 100644
--- a/src/python/zquantum/core/openfermion/utils/operator_utils.py
+++ b/src/python/zquantum/core/openfermion/utils/operator_utils.py
@@ -238,6 +238,9 @@ def load_operator(file_name=None, data_directory=None, plain_text=False):
         with open(file_path, "r") as f:
             data = f.read()
             operator_type, operator_terms = data.split(":\n")
+            if operator_terms == "0":
+                # An operator without terms
+                operator_terms = None
 
         if operator_type == "FermionOperator":
             operator = FermionOperator(operator_terms)
-- 
2.43.0


From 28b191e98f8614fb9ea64b9ca4700aec1deeba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 06/48] fix: keep earlier records when the measurement tracker
 rewrites its raw data file

---
 src/python/zquantum/core/trackers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/python/zquantum/core/trackers.py b/src/python/zquantum/core/trackers.py
index 4a7114c..8d1b51f 100644
--- a/src/python/zquantum/core/trackers.py
+++ b/src/python/zquantum/core/trackers.py
@@ -153,4 +153,3 @@ class MeasurementTrackingBackend(QuantumBackend):
                 "raw-data": self.raw_data,
             }
             f.write(json.dumps(data))
-        self.raw_data = []
-- 
2.43.0


From 4fd18727ac56c2009c073e1a863b12248c44761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 07/48] fix: measure the transformation walltime with a
 monotonic clock

---
 steps/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steps/transforms.py b/steps/transforms.py
index e6495ea..dbc9910 100644
--- a/steps/transforms.py
+++ b/steps/transforms.py
@@ -38,9 +38,9 @@ def transform_interaction_operator(
     else:
         raise RuntimeError("Unrecognized transformation ", transformation)
 
-    start_time = time.time()
+    start_time = time.perf_counter()
     transformed_operator = transformation_function(input_operator)
-    walltime = time.time() - start_time
+    walltime = time.perf_counter() - start_time
 
     save_qubit_operator(transformed_operator, "transformed-operator.json")
     save_timing(walltime, "timing.json")
-- 
2.43.0


From d81b3ac54703d4caf5fd9f876761c6f1d5bc5e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 08/48] fix: invalidate the ansatz circuit also when a
 circuit-changing method or setter fails

---
 .../zquantum/core/interfaces/ansatz_utils.py   | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/python/zquantum/core/interfaces/ansatz_utils.py b/src/python/zquantum/core/interfaces/ansatz_utils.py
index fe63528..b3d9eb2 100644
--- a/src/python/zquantum/core/interfaces/ansatz_utils.py
+++ b/src/python/zquantum/core/interfaces/ansatz_utils.py
@@ -21,8 +21,10 @@ class _InvalidatingSetter(object):
         return self.target.__get__(ansatz, obj_type)
 
     def __set__(self, ansatz, new_obj):
-        self.target.__set__(ansatz, new_obj)
-        ansatz._parametrized_circuit = None
+        try:
+            self.target.__set__(ansatz, new_obj)
+        finally:
+            ansatz._parametrized_circuit = None
 
 
 def invalidates_parametrized_circuit(target):
@@ -40,12 +42,12 @@ def invalidates_parametrized_circuit(target):
         # Therefore, we are decorating a function of signature _function(ansatz, ...)
         @wraps(target)
         def _wrapper(ansatz, *args, **kwargs):
-            # Pass through the arguments, store the returned value for later use
-            return_value = target(ansatz, *args, **kwargs)
-            # Invalidate circuit
-            ansatz._parametrized_circuit = None
-            # Return original result
-            return return_value
+            try:
+                # Pass through the arguments, return original result
+                return target(ansatz, *args, **kwargs)
+            finally:
+                # Invalidate circuit, also if target failed having changed the ansatz
+                ansatz._parametrized_circuit = None
 
         return _wrapper
 
-- 
2.43.0


From 680741756de0df6e5454dbbb78295c69d464ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:01 +0000
Subject: [PATCH 09/48] fix: replace the saved molecule atomically instead of
 deleting it first

---
 .../core/openfermion/chem/molecular_data.py   | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 8a3b331..24e4cba 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -15,7 +15,6 @@
 """Class and functions to store quantum chemistry data."""
 
 import os
-import shutil
 import uuid
 
 import h5py
@@ -729,9 +728,22 @@ class MolecularData(object):
     def save(self):
         """Method to save the class under a systematic name."""
         # Create a temporary file and swap it to the original name in case
-        # data needs to be loaded while saving
-        tmp_name = uuid.uuid4()
-        with h5py.File("{}.hdf5".format(tmp_name), "w") as f:
+        # data needs to be loaded while saving. It is placed next to the original
+        # so that the swap is a single atomic rename.
+        tmp_name = os.path.join(
+            os.path.dirname(self.filename), "{}.hdf5".format(uuid.uuid4())
+        )
+        try:
+            self._save_to_file(tmp_name)
+            os.replace(tmp_name, "{}.hdf5".format(self.filename))
+        except BaseException:
+            if os.path.exists(tmp_name):
+                os.remove(tmp_name)
+            raise
+
+    def _save_to_file(self, file_name):
+        """Write all the data to a new file."""
+        with h5py.File(file_name, "w") as f:
             # Save geometry (atoms and positions need to be separate):
             d_geom = f.create_group("geometry")
             if not isinstance(self.geometry, basestring):
@@ -906,16 +918,6 @@ class MolecularData(object):
                 ),
             )
 
-        # Remove old file first for compatibility with systems that don't allow
-        # rename replacement.  Catching OSError for when file does not exist
-        # yet
-        try:
-            os.remove("{}.hdf5".format(self.filename))
-        except OSError:
-            pass
-
-        shutil.move("{}.hdf5".format(tmp_name), "{}.hdf5".format(self.filename))
-
     def load(self):
         geometry = []
 
-- 
2.43.0


From 702e2220fc9ea14b4cf184846d533a96e8d55827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:52 +0000
Subject: [PATCH 10/48] fix: load the atoms of a molecule as the list of names
 that was saved

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 24e4cba..82f7957 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -947,7 +947,9 @@ class MolecularData(object):
             # Load n_atoms:
             self.n_atoms = int(f["n_atoms"][...])
             # Load atoms:
-            self.atoms = f["atoms"][...]
+            self.atoms = [
+                atom.decode("utf-8") for atom in f["atoms"][...].ravel() if atom
+            ]
             # Load protons:
             self.protons = f["protons"][...]
             # Load n_electrons:
-- 
2.43.0


From 2f1519715a1db548d393336d76c255023b82cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:52 +0000
Subject: [PATCH 11/48] fix: set the general calculations of a loaded molecule
 that has none

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 82f7957..c2bfea9 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -982,6 +982,7 @@ class MolecularData(object):
             if "general_calculations_keys" in f and "general_calculations_values" in f:
                 keys = f["general_calculations_keys"]
                 values = f["general_calculations_values"]
+                self.general_calculations = {}
                 if keys.shape != (()):
                     self.general_calculations = {
                         key.tobytes().decode("utf-8"): value
-- 
2.43.0


From 5e8a9c905a495d8177bee9445105d0ce6f47a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 12/48] fix: keep the gradient's history when copying a
 recorder

---
 src/python/zquantum/core/history/recorder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/history/recorder.py b/src/python/zquantum/core/history/recorder.py
index 3ace945..9030e9f 100644
--- a/src/python/zquantum/core/history/recorder.py
+++ b/src/python/zquantum/core/history/recorder.py
@@ -64,6 +64,8 @@ def copy_recorder(recorder_to_copy):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = recorder_to_copy.history
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = copy.copy(recorder_to_copy.gradient)
     return recorder_copy
 
 
@@ -76,6 +78,8 @@ def deepcopy_recorder(recorder_to_copy, memo):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = copy.deepcopy(recorder_to_copy.history, memo=memo)
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = copy.deepcopy(recorder_to_copy.gradient, memo=memo)
     return recorder_copy
 
 
-- 
2.43.0


From c4bce5753a00cf1df3949efdf11786bf6b487152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:14 +0000
Subject: [PATCH 13/48] fix: merge optimization histories when only some
 iterations have gradients

---
 src/python/zquantum/core/interfaces/optimizer.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/interfaces/optimizer.py b/src/python/zquantum/core/interfaces/optimizer.py
index 571dc56..4b4f6b3 100644
--- a/src/python/zquantum/core/interfaces/optimizer.py
+++ b/src/python/zquantum/core/interfaces/optimizer.py
@@ -129,11 +129,9 @@ def extend_histories(
     cost_function: AnyRecorder, histories: Dict[str, List]
 ) -> Dict[str, List]:
     new_histories = construct_history_info(cost_function, True)
-    updated_histories = {"history": histories["history"] + new_histories["history"]}
-    if hasattr(cost_function, "gradient"):
-        updated_histories["gradient_history"] = (
-            histories["gradient_history"] + new_histories["gradient_history"]
-        )
+    updated_histories = dict(histories)
+    for name, entries in new_histories.items():
+        updated_histories[name] = histories.get(name, []) + entries
     return updated_histories
 
 
-- 
2.43.0


From bc552a5634518d2ae92beebfdee84aabf5599eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:33 +0000
Subject: [PATCH 14/48] fix: apply gradient augmentations also when the cost
 function has none of its own

---
 src/python/zquantum/core/cost_function_augmentations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/zquantum/core/cost_function_augmentations.py b/src/python/zquantum/core/cost_function_augmentations.py
index 022cfc0..cae60ff 100644
--- a/src/python/zquantum/core/cost_function_augmentations.py
+++ b/src/python/zquantum/core/cost_function_augmentations.py
@@ -173,6 +173,12 @@ def augment_cost_function(
         cost_function, cost_function_augmentations, attribute_overrides
     )
 
+    if augmented_cost_function is cost_function and gradient_augmentations:
+        # Nothing wraps the cost function itself, but its gradient is augmented.
+        augmented_cost_function = _AttributePropagatingWrapper(
+            cost_function, cost_function, attribute_overrides
+        )
+
     return augmented_cost_function
 
 
-- 
2.43.0


From df890368897e6a96c4b49c0aa405c81f223307f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:13 +0000
Subject: [PATCH 15/48] fix: let protocol checks see the gradient of an
 augmented cost function

---
 src/python/zquantum/core/cost_function_augmentations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/cost_function_augmentations.py b/src/python/zquantum/core/cost_function_augmentations.py
index cae60ff..233fa20 100644
--- a/src/python/zquantum/core/cost_function_augmentations.py
+++ b/src/python/zquantum/core/cost_function_augmentations.py
@@ -77,6 +77,10 @@ class _AttributePropagatingWrapper:
             "_attribute_overrides",
             attribute_overrides if attribute_overrides else {},
         )
+        # Protocol checks may look attributes up statically, i.e. bypassing
+        # __getattr__, hence overrides have to be proper attributes of this object.
+        for attr_name, value in self._attribute_overrides.items():
+            object.__setattr__(self, attr_name, value)
 
     def __call__(self, *args, **kwargs):
         """Propagate call to the wrapped function.
-- 
2.43.0


From 70781b536b4b8dbc24ce30bb8de5ef848f70b409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:48 +0000
Subject: [PATCH 16/48] fix: reject sampling fewer than one bitstring before
 simulating the circuit

---
 src/python/zquantum/core/symbolic_simulator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/zquantum/core/symbolic_simulator.py b/src/python/zquantum/core/symbolic_simulator.py
index 7e7abde..d5278e6 100644
--- a/src/python/zquantum/core/symbolic_simulator.py
+++ b/src/python/zquantum/core/symbolic_simulator.py
@@ -38,6 +38,9 @@ class SymbolicSimulator(QuantumSimulator):
             circuit: the circuit to prepare the state
             n_samples: the number of bitstrings to sample
         """
+        if n_samples < 1:
+            raise ValueError("Must sample given circuit at least once.")
+
         wavefunction = self.get_wavefunction(
             circuit if symbol_map is None else circuit.bind(symbol_map)
         )
-- 
2.43.0


From 68085c64ccc23decedf1976944d1c70c5096212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:21 +0000
Subject: [PATCH 17/48] fix: copy the amplitudes a wavefunction is created from

---
 src/python/zquantum/core/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index e7e9736..94ec315 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -56,7 +56,7 @@ class Wavefunction:
             )
 
         try:
-            self._amplitude_vector = np.asarray(amplitude_vector, dtype=complex)
+            self._amplitude_vector = np.array(amplitude_vector, dtype=complex)
         except TypeError:
             self._amplitude_vector = Matrix(amplitude_vector)
 
-- 
2.43.0


From 3436e662fd43f824e66135c38b733fbd85b5ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:21 +0000
Subject: [PATCH 18/48] fix: leave the wavefunction unchanged when an
 assignment to it is rejected

---
 src/python/zquantum/core/wavefunction.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 94ec315..aa067b5 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -110,16 +110,17 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
-        self._amplitude_vector[idx] = val
+        # The assignment is made on a copy, so that a rejected one leaves no trace.
+        new_amplitude_vector = self._amplitude_vector.copy()
+        new_amplitude_vector[idx] = val
 
         try:
-            self._check_normalization(self._amplitude_vector)
+            self._check_normalization(new_amplitude_vector)
         except ValueError:
-            self._amplitude_vector[idx] = old_val
-
             raise ValueError("This assignment violates probability unity.")
 
+        self._amplitude_vector = new_amplitude_vector
+
     def __str__(self) -> str:
         cast_wf = _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
         return f"Wavefunction({cast_wf})"
-- 
2.43.0


From 8fc9188c9471561774a5b046bdf78c8f2ae0c771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:35 +0000
Subject: [PATCH 19/48] fix: handle symbolic wavefunctions whose symbols have
 all been assigned

---
 src/python/zquantum/core/wavefunction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index aa067b5..67bacbb 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -64,7 +64,7 @@ class Wavefunction:
 
     @property
     def amplitudes(self) -> Union[np.ndarray, Matrix]:
-        if self.free_symbols:
+        if isinstance(self._amplitude_vector, Matrix):
             return _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
 
         return self._amplitude_vector
@@ -85,7 +85,7 @@ class Wavefunction:
             or isinstance(arr, Matrix)
             and not arr.free_symbols
         ):
-            probs_of_ground_entries = np.sum(np.abs(arr) ** 2)
+            probs_of_ground_entries = np.sum(np.abs(np.array(arr, dtype=complex)) ** 2)
 
             if not np.isclose(probs_of_ground_entries, 1.0):
                 raise ValueError("Vector does not result in a unit probability.")
-- 
2.43.0


From 2ee4213a318134e28d3bccf4ca4554ca072e40f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 20/48] fix: sample from every wavefunction that counts as
 normalized

---
 src/python/zquantum/core/measurement.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index 3905433..d6539b4 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -201,7 +201,13 @@ def sample_from_wavefunction(
     probabilities = [
         x[0] if isinstance(x, (list, np.ndarray)) else x for x in list(probabilities_np)
     ]
-    samples_ndarray = rng.choice(a=outcomes_str, size=n_samples, p=probabilities)
+    # The sampler tolerates smaller deviations from one than the wavefunction does.
+    total_probability = sum(probabilities)
+    samples_ndarray = rng.choice(
+        a=outcomes_str,
+        size=n_samples,
+        p=[probability / total_probability for probability in probabilities],
+    )
     samples = [tuple(int(y) for y in list(x)[::-1]) for x in list(samples_ndarray)]
     return samples
 
-- 
2.43.0


From 550121b2577b419132fa3cd1f9dc6adeccf2285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:22 +0000
Subject: [PATCH 21/48] fix: represent a distribution by counts within one
 sample of the exact ones

---
 src/python/zquantum/core/measurement.py | 38 ++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index d6539b4..739fd38 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -518,6 +518,27 @@ def get_expectation_value_from_frequencies(
     return expectation_values.sum().item()
 
 
+def _sample_distinct_outcomes(
+    probability_distribution: Dict[Tuple[int, ...], float], n_samples: int
+) -> Counter:
+    """Sample from a distribution, without replacement.
+
+    Args:
+        probability_distribution: outcomes and their likelihood
+        n_samples: number of samples, not greater than the number of outcomes
+    Returns:
+        The sampled outcomes, each with count one
+    """
+    outcomes = list(probability_distribution.keys())
+    chosen = np.random.choice(
+        len(outcomes),
+        n_samples,
+        replace=False,
+        p=list(probability_distribution.values()),
+    )
+    return Counter(outcomes[index] for index in chosen)
+
+
 def _check_sample_elimination(
     samples: Counter,
     bitstring_samples: List[Tuple[int, ...]],
@@ -617,20 +638,29 @@ class Measurements:
 
         # If frequencies are inconsistent with number of samples, we may need to
         # add or delete samples. The bitstrings to correct are chosen at random,
-        # giving more weight to those with non-integer part closest to 0.5
-        if len(bitstring_samples) != number_of_samples:
+        # giving more weight to those with non-integer part closest to 0.5. Only
+        # bitstrings whose frequency has been rounded the other way are corrected, each
+        # at most once, so that all frequencies stay as close as possible.
+        number_of_missing_samples = number_of_samples - len(bitstring_samples)
+        if number_of_missing_samples != 0:
             leftover_distribution = MeasurementOutcomeDistribution(
                 {
                     states: 0.5
                     - abs(0.5 - (distribution[states] * number_of_samples) % 1)
                     for states in distribution.keys()
+                    if number_of_missing_samples
+                    * (
+                        distribution[states] * number_of_samples
+                        - round(distribution[states] * number_of_samples)
+                    )
+                    > 0
                 },
                 True,
             )
 
-            samples = sample_from_probability_distribution(
+            samples = _sample_distinct_outcomes(
                 leftover_distribution.distribution_dict,
-                abs(number_of_samples - len(bitstring_samples)),
+                abs(number_of_missing_samples),
             )
             if number_of_samples - len(bitstring_samples) > 0:
                 for sample in samples:
-- 
2.43.0


From 81415aed5cc0e6b8444485397dfba29dd9071f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:41 +0000
Subject: [PATCH 22/48] fix: do not add counts to the list that measurements
 were created from

---
 src/python/zquantum/core/measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index 739fd38..13b642b 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -598,7 +598,7 @@ class Measurements:
         if bitstrings is None:
             self.bitstrings = []
         else:
-            self.bitstrings = bitstrings
+            self.bitstrings = list(bitstrings)
 
     @classmethod
     def from_counts(cls, counts: Dict[str, int]):
-- 
2.43.0


From abc721bcde45a55b45946702bb0861513fdfa074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:13 +0000
Subject: [PATCH 23/48] fix: leave prior expectation values unchanged when
 computing variances

---
 src/python/zquantum/core/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/hamiltonian.py b/src/python/zquantum/core/hamiltonian.py
index 01ed1fc..e0a9959 100644
--- a/src/python/zquantum/core/hamiltonian.py
+++ b/src/python/zquantum/core/hamiltonian.py
@@ -169,7 +169,7 @@ def compute_group_variances(
             raise ValueError(
                 "Number of expectation values should be the same as number of terms."
             )
-        real_expecval = expectation_values_to_real(expecval)
+        real_expecval = expectation_values_to_real(copy.deepcopy(expecval))
         if not np.logical_and(
             real_expecval.values >= -1, real_expecval.values <= 1
         ).all():
-- 
2.43.0


From 8467ad5ce498e3852045ca6a9663581ff90f5eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:47 +0000
Subject: [PATCH 24/48] fix: let several iterations over one operator run at
 the same time

---
 .../core/openfermion/ops/operators/symbolic_operator.py   | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 0f7a1ee..63e283a 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -619,12 +619,8 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
         return not (self == other)
 
     def __iter__(self):
-        self._iter = iter(self.terms.items())
-        return self
-
-    def __next__(self):
-        term, coefficient = next(self._iter)
-        return self.__class__(term=term, coefficient=coefficient)
+        for term, coefficient in self.terms.items():
+            yield self.__class__(term=term, coefficient=coefficient)
 
     def isclose(self, other, tol=EQ_TOLERANCE):
         """Check if other (SymbolicOperator) is close to self.
-- 
2.43.0


From 78d71112836c102a3adf9974aa071c1a07d96e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:22 +0000
Subject: [PATCH 25/48] fix: do not share tensors between a sum or difference
 and its operands

---
 .../openfermion/ops/representations/polynomial_tensor.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index ed50e64..25d9b9d 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -237,7 +237,7 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], addend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = addend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.deepcopy(addend.n_body_tensors[key])
 
         return self
 
@@ -279,7 +279,9 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], subtrahend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = subtrahend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.deepcopy(
+                    subtrahend.n_body_tensors[key]
+                )
 
         return self
 
-- 
2.43.0


From db64db548c03425e9493e41d91d7330f7f97c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:32 +0000
Subject: [PATCH 26/48] fix: keep the amplitudes of a numeric wavefunction in a
 flat array

---
 src/python/zquantum/core/wavefunction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 67bacbb..41373f8 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -56,7 +56,9 @@ class Wavefunction:
             )
 
         try:
-            self._amplitude_vector = np.array(amplitude_vector, dtype=complex)
+            self._amplitude_vector = np.array(amplitude_vector, dtype=complex).reshape(
+                len(amplitude_vector)
+            )
         except TypeError:
             self._amplitude_vector = Matrix(amplitude_vector)
 
-- 
2.43.0


From df8af47e12fe9c0e4baa38dddadba2ee4bf0a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:58 +0000
Subject: [PATCH 27/48] fix: bind the free symbols in the step evaluating a
 parametrized circuit

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index bb9b72f..149e89e 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -144,6 +144,6 @@ def evaluate_parametrized_circuit(
     if isinstance(parameters, str):
         parameters = serialization.load_array(parameters)
 
-    symbols_map = create_symbols_map(parametrized_circuit.symbolic_params, parameters)
+    symbols_map = create_symbols_map(parametrized_circuit.free_symbols, parameters)
     bound_circuit = parametrized_circuit.bind(symbols_map)
     save_circuit(bound_circuit, "evaluated-circuit.json")
-- 
2.43.0


From 0331c7606d2faba7bf89b31d2b801b3549dab44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:58 +0000
Subject: [PATCH 28/48] fix: do not add circuits to the list passed to the step
 batching circuits

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index 149e89e..76511b2 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -121,7 +121,7 @@ def batch_circuits(
     elif isinstance(circuit_set, str):
         loaded_circuit_set = load_circuitset(circuit_set)
     else:
-        loaded_circuit_set = circuit_set
+        loaded_circuit_set = list(circuit_set)
 
     for circuit in circuits:
         if isinstance(circuit, str):
-- 
2.43.0


From 159db7a6eba9b486af55d8ed99876c084d26fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:58 +0000
Subject: [PATCH 29/48] fix: import the operator type used by the step summing
 expectation values

---
 steps/measure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steps/measure.py b/steps/measure.py
index 9dca346..f2aa022 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -31,6 +31,7 @@ from zquantum.core.measurement import (
     save_expectation_values,
 )
 from zquantum.core.openfermion import (
+    IsingOperator,
     SymbolicOperator,
     change_operator_type,
     load_interaction_rdm,
-- 
2.43.0


From 305c77b847fb44cdda94f2a928e58f13a38fdcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:10 +0000
Subject: [PATCH 30/48] fix: estimate with the number of samples of the backend
 also when tracking measurements

---
 steps/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steps/evaluation.py b/steps/evaluation.py
index 4af2867..cd6c4ee 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -76,6 +76,7 @@ def get_expectation_values_for_qubit_operator(
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
     backend = cast(QuantumBackend, create_object(backend_specs))
+    n_samples = backend.n_samples
 
     if backend_specs.get("track_measurements"):
         backend = MeasurementTrackingBackend(
@@ -84,7 +85,7 @@ def get_expectation_values_for_qubit_operator(
             record_bitstrings=backend_specs.get("record_bitstrings"),
         )
 
-    estimation_tasks = [EstimationTask(qubit_operator, circuit, backend.n_samples)]
+    estimation_tasks = [EstimationTask(qubit_operator, circuit, n_samples)]
 
     expectation_values = estimate_expectation_values_by_averaging(
         backend, estimation_tasks
-- 
2.43.0


From c1bb83990a96fd251cab7d6aaebdb140bcce0600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:28 +0000
Subject: [PATCH 31/48] fix: let a tracked simulator compute distributions
 without a number of samples

---
 src/python/zquantum/core/trackers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/trackers.py b/src/python/zquantum/core/trackers.py
index 8d1b51f..a210f65 100644
--- a/src/python/zquantum/core/trackers.py
+++ b/src/python/zquantum/core/trackers.py
@@ -91,7 +91,7 @@ class MeasurementTrackingBackend(QuantumBackend):
         self.raw_data.append(raw_data_dict)
 
     def get_bitstring_distribution(
-        self, circuit: Circuit, n_samples: int
+        self, circuit: Circuit, n_samples: Optional[int] = None
     ) -> BitstringDistribution:
         """Calculates a bitstring distribution.
 
@@ -104,7 +104,9 @@ class MeasurementTrackingBackend(QuantumBackend):
         Returns:
             Probability distribution of getting specific bistrings.
         """
-        distribution = self.inner_backend.get_bitstring_distribution(circuit, n_samples)
+        distribution = self.inner_backend.get_bitstring_distribution(
+            circuit, n_samples  # type: ignore
+        )
         self.raw_data.append(
             {
                 "data_type": "bitstring distribution",
@@ -119,7 +121,7 @@ class MeasurementTrackingBackend(QuantumBackend):
         return distribution
 
     def get_measurement_outcome_distribution(
-        self, circuit: Circuit, n_samples: int
+        self, circuit: Circuit, n_samples: Optional[int] = None
     ) -> MeasurementOutcomeDistribution:
         """Calculates a measurement outcome distribution.
 
@@ -131,7 +133,7 @@ class MeasurementTrackingBackend(QuantumBackend):
 
         """
         distribution = self.inner_backend.get_measurement_outcome_distribution(
-            circuit, n_samples
+            circuit, n_samples  # type: ignore
         )
         self.raw_data.append(
             {
-- 
2.43.0


From 2c2c7d26dc500b1b65811f7f4a072bab7f03b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:28 +0000
Subject: [PATCH 32/48] fix: accept operators as documented in the steps
 interpolating and diagonalizing them

---
 steps/evaluation.py | 3 ++-
 steps/operators.py  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/steps/evaluation.py b/steps/evaluation.py
index cd6c4ee..ba4704d 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -103,7 +103,8 @@ def get_ground_state_rdm_from_qubit_operator(
         qubit_operator: The openfermion operator to diagonalize
         n_particles: number of particles in the target ground state
     """
-    qubit_operator = load_qubit_operator(qubit_operator)
+    if isinstance(qubit_operator, str):
+        qubit_operator = load_qubit_operator(qubit_operator)
     rdm = _get_ground_state_rdm_from_qubit_op(qubit_operator, n_particles)
     save_interaction_rdm(rdm, "rdms.json")
 
diff --git a/steps/operators.py b/steps/operators.py
index 406f237..c82d9b0 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -95,8 +95,10 @@ def interpolate_qubit_operators(
         target_qubit_operator: The target operator
         epsilon: The parameterization between the two operators. Default value is 0.5
     """
-    reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
-    target_qubit_operator = load_qubit_operator(target_qubit_operator)
+    if isinstance(reference_qubit_operator, str):
+        reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
+    if isinstance(target_qubit_operator, str):
+        target_qubit_operator = load_qubit_operator(target_qubit_operator)
 
     if epsilon > 1.0 or epsilon < 0.0:
         raise ValueError("epsilon must be in the range [0.0, 1.0]")
-- 
2.43.0


From 36414df569b2595b9d8ad6581885622478469c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:28 +0000
Subject: [PATCH 33/48] fix: do not add keys to the specs passed to steps

---
 steps/measure.py  | 28 +++++++++++++---------------
 steps/optimize.py |  2 ++
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/steps/measure.py b/steps/measure.py
index f2aa022..f49295e 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -50,6 +50,11 @@ from zquantum.core.utils import (
 )
 
 
+def _copy_specs(specs: Specs) -> Dict:
+    """Get the specs as a dictionary that can be changed without the caller noticing."""
+    return json.loads(specs) if isinstance(specs, str) else dict(specs)
+
+
 def run_circuit_and_measure(
     backend_specs: Specs,
     circuit: Union[str, Dict],
@@ -57,8 +62,7 @@ def run_circuit_and_measure(
     noise_model: Optional[str] = None,
     device_connectivity: Optional[str] = None,
 ):
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
+    backend_specs = _copy_specs(backend_specs)
     if noise_model is not None:
         backend_specs["noise_model"] = load_noise_model(noise_model)
     if device_connectivity is not None:
@@ -91,8 +95,7 @@ def run_circuitset_and_measure(
     device_connectivity: Optional[str] = None,
 ):
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
+    backend_specs = _copy_specs(backend_specs)
     if noise_model is not None:
         backend_specs["noise_model"] = load_noise_model(noise_model)
     if device_connectivity is not None:
@@ -123,8 +126,7 @@ def get_bitstring_distribution(
     noise_model: Optional[str] = None,
     device_connectivity: Optional[str] = None,
 ):
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
+    backend_specs = _copy_specs(backend_specs)
     if noise_model is not None:
         backend_specs["noise_model"] = load_noise_model(noise_model)
     if device_connectivity is not None:
@@ -176,8 +178,7 @@ def evaluate_ansatz_based_cost_function(
     else:
         ansatz = create_object(ansatz_specs)
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
+    backend_specs = _copy_specs(backend_specs)
     if noise_model is not None:
         backend_specs["noise_model"] = load_noise_model(noise_model)
     if device_connectivity is not None:
@@ -193,8 +194,7 @@ def evaluate_ansatz_based_cost_function(
             record_bitstrings=backend_specs.get("record_bitstrings"),
         )
 
-    if isinstance(cost_function_specs, str):
-        cost_function_specs = json.loads(cost_function_specs)
+    cost_function_specs = _copy_specs(cost_function_specs)
 
     if (
         "estimator-specs" in cost_function_specs.keys()
@@ -221,11 +221,9 @@ def evaluate_ansatz_based_cost_function(
     if estimation_preprocessors_specs is not None:
         cost_function_specs["estimation_preprocessors"] = []
         for estimation_tasks_transformation_specs in estimation_preprocessors_specs:
-
-            if isinstance(estimation_tasks_transformation_specs, str):
-                estimation_tasks_transformation_specs = json.loads(
-                    estimation_tasks_transformation_specs
-                )
+            estimation_tasks_transformation_specs = _copy_specs(
+                estimation_tasks_transformation_specs
+            )
 
             if prior_expectation_values is not None:
                 # Since we don't know which estimation task transformation uses
diff --git a/steps/optimize.py b/steps/optimize.py
index f8fa831..2592cef 100644
--- a/steps/optimize.py
+++ b/steps/optimize.py
@@ -198,6 +198,8 @@ def optimize_ansatz_based_cost_function(
 
     if isinstance(ansatz_specs, str):
         ansatz_specs = json.loads(ansatz_specs)
+    else:
+        ansatz_specs = dict(ansatz_specs)
 
     if "WarmStartQAOAAnsatz" in ansatz_specs["function_name"]:
         ansatz_specs["thetas"] = np.array(load_list(kwargs.pop("thetas")))
-- 
2.43.0


From 4d4d7bc3a7076382a87f7820345cf4f01459ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:06 +0000
Subject: [PATCH 34/48] fix: freeze no core orbitals when the step is given no
 number of them

---
 steps/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/operators.py b/steps/operators.py
index c82d9b0..b37d909 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -180,7 +180,7 @@ def remove_inactive_orbitals(
     interaction_operator = load_interaction_operator(interaction_operator)
 
     frozen_operator = _remove_inactive_orbitals(
-        interaction_operator, n_active=n_active, n_core=n_core
+        interaction_operator, n_active=n_active, n_core=n_core or 0
     )
 
     save_interaction_operator(frozen_operator, "frozen-operator.json")
-- 
2.43.0


From 707d8a684ba3c0f7012137a5063b97442b7d722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:12 +0000
Subject: [PATCH 35/48] fix: report I/O errors when reading properties of a
 saved molecule

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index c2bfea9..a00bf7e 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -1011,6 +1011,10 @@ class MolecularData(object):
         except KeyError:
             data = None
         except IOError:
+            # Nothing has been saved yet. Failing to read what has been saved is
+            # an error: reporting it as missing would let it be dropped by a save.
+            if os.path.exists("{}.hdf5".format(self.filename)):
+                raise
             data = None
         return data
 
-- 
2.43.0


From ef39977fe06dea1eee9bc3b0208e017e07cbafd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:12 +0000
Subject: [PATCH 36/48] fix: load circuits whose symbols have names that do not
 parse as such

---
 src/python/zquantum/core/circuits/_serde.py | 40 ++++++++++-----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index 915df90..8393d84 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -2,9 +2,11 @@
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
 import json
+import keyword
 import re
+import unicodedata
 from functools import singledispatch
-from typing import Dict, Iterable, List, Mapping, Union
+from typing import Dict, Iterable, List, Mapping
 
 import sympy
 from zquantum.core.typing import DumpTarget, LoadSource
@@ -21,27 +23,25 @@ def serialize_expr(expr: sympy.Expr):
     return str(expr)
 
 
-def _make_symbols_map(
-    symbol_names: Iterable[str],
-) -> Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]]:
-    symbols_map: Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]] = {}
-    for name in symbol_names:
-        # Check if the symbol name has brackets, such as "x[4]". Such symbol names will
-        # occur in circuits imported from Qiskit when the Qiskit circuit was
-        # parameterized using a Qiskit ParameterVector.
-        match = re.search(r"^(.*)\[([0-9]+)\]$", name)
-        if match:
-            symbols_map.setdefault(match.group(1), {})[
-                int(match.group(2))
-            ] = sympy.Symbol(name)
-        else:
-            symbols_map[name] = sympy.Symbol(name)
-
-    return symbols_map
+def _is_parsed_as_name(symbol_name: str) -> bool:
+    return (
+        symbol_name.isidentifier()
+        and not keyword.iskeyword(symbol_name)
+        and unicodedata.normalize("NFKC", symbol_name) == symbol_name
+    )
 
 
-def deserialize_expr(expr_str, symbol_names):
-    symbols_map = _make_symbols_map(symbol_names)
+def deserialize_expr(expr_str: str, symbol_names: Iterable[str]):
+    symbols_map: Dict[str, sympy.Symbol] = {}
+    for i, name in enumerate(sorted(symbol_names, key=len, reverse=True)):
+        key = name
+        # Some symbol names, such as "lambda" or "x[4]", wouldn't be parsed as names, so
+        # placeholders stand for them. Names like "x[4]" occur in circuits imported from
+        # Qiskit when the Qiskit circuit was parameterized using a ParameterVector.
+        if name and not _is_parsed_as_name(name):
+            key = f"_symbol_placeholder_{i}"
+            expr_str = re.sub(rf"(?<!\w){re.escape(name)}(?!\w)", key, expr_str)
+        symbols_map[key] = sympy.Symbol(name)
     return sympy.sympify(expr_str, locals=symbols_map)
 
 
-- 
2.43.0


From febdf353a92c818d6e4742543522bad274a51901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:12 +0000
Subject: [PATCH 37/48] fix: keep custom gates named like other gates when
 saving circuits

---
 src/python/zquantum/core/circuits/_circuit.py | 8 ++++++++
 src/python/zquantum/core/circuits/_serde.py   | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index a8324f6..5a16a7b 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -120,6 +120,14 @@ class Circuit:
                     "Different gate definitions with the same name exist: "
                     f"{gate_def.gate_name}."
                 )
+        for operation in self.operations:
+            gate_name = _innermost_gate(operation).name
+            if gate_name in unique_operation_dict and not _operation_uses_custom_gate(
+                operation
+            ):
+                raise ValueError(
+                    f"A custom gate has the same name as another gate: {gate_name}."
+                )
         return sorted(
             unique_operation_dict.values(), key=operator.attrgetter("gate_name")
         )
diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index 8393d84..5a5acfb 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -205,6 +205,12 @@ def _gate_from_dict(dict_, custom_gate_defs):
 
     Pass it a JSON dictionary and it'll try its best to return you a proper gate
     instance, regardless of the given gate type."""
+    # Custom gates go first, their names might be those of other gates.
+    if "wrapped_gate" not in dict_ and any(
+        gate_def.gate_name == dict_["name"] for gate_def in custom_gate_defs
+    ):
+        return _custom_gate_instance_from_dict(dict_, custom_gate_defs)
+
     try:
         return _builtin_gate_from_dict(dict_)
     except KeyError:
-- 
2.43.0


From 857380ab91e0cad3351f022225aa5c1607fda5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:09 +0000
Subject: [PATCH 38/48] fix: read saved single-integer outcomes of more than
 one digit back as one integer

---
 .../_measurement_outcome_distribution.py      | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
index 5c3b1db..37c48cb 100644
--- a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
+++ b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
@@ -92,7 +92,15 @@ def preprocess_distibution_dict(
     res_dict = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            # A trailing comma marks a single integer of more than one digit
+            res_dict[
+                tuple(
+                    map(
+                        int,
+                        key if "," not in key else key.rstrip(",").split(","),
+                    )
+                )
+            ] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -222,10 +230,14 @@ def normalize_measurement_outcome_distribution(
 
 
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
-    return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
-        for key, value in dict.items()
-    }
+    def to_string(key):
+        if not isinstance(key, tuple):
+            return key
+        string = ",".join(map(str, key))
+        # Without a comma "12" would be read as (1, 2)
+        return string + "," if len(key) == 1 and len(string) > 1 else string
+
+    return {to_string(key): value for key, value in dict.items()}
 
 
 def save_measurement_outcome_distribution(
-- 
2.43.0


From 33dd404943eedc6b875b67b545d413654b3c9988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:09 +0000
Subject: [PATCH 39/48] fix: load measurement-number estimates saved without
 frame_meas

---
 src/python/zquantum/core/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 327baea..e69cbce 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -551,7 +551,9 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(
+    filename: AnyPath,
+) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
@@ -560,13 +562,16 @@ def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
     Returns:
         nmeas: number of measurements for epsilon = 1.0
         nterms: number of terms in the hamiltonian
-        frame_meas: frame measurements (number of measurements per group)
+        frame_meas: frame measurements (number of measurements per group), None if
+            they were not saved
     """
 
     with open(filename, "r") as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    frame_meas = (
+        convert_dict_to_array(data["frame_meas"]) if "frame_meas" in data else None
+    )
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From 5c22398634ccb4a0c7b625fb435906656a7591d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:09 +0000
Subject: [PATCH 40/48] fix: save all terms of an operator in plain text

---
 .../core/openfermion/utils/operator_utils.py      | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/utils/operator_utils.py b/src/python/zquantum/core/openfermion/utils/operator_utils.py
index c412bb4..1bac992 100644
--- a/src/python/zquantum/core/openfermion/utils/operator_utils.py
+++ b/src/python/zquantum/core/openfermion/utils/operator_utils.py
@@ -268,6 +268,19 @@ def load_operator(file_name=None, data_directory=None, plain_text=False):
     return operator
 
 
+def _to_plain_text(operator):
+    """All terms of an operator with their exact coefficients; its str leaves out
+    those with small coefficients and may round complex ones."""
+    terms = []
+    for term, coefficient in sorted(operator.terms.items()):
+        if isinstance(coefficient, complex):
+            coefficient = repr(complex(coefficient))
+        # The string of a term without a coefficient starts with "1.0 "
+        factors = str(type(operator)(term)).split(" ", 1)[1]
+        terms.append("{} {}".format(coefficient, factors))
+    return " +\n".join(terms) or "0"
+
+
 def save_operator(
     operator,
     file_name=None,
@@ -315,7 +328,7 @@ def save_operator(
 
     if plain_text:
         with open(file_path, "w") as f:
-            f.write(operator_type + ":\n" + str(operator))
+            f.write(operator_type + ":\n" + _to_plain_text(operator))
     else:
         tm = operator.terms
         with open(file_path, "wb") as f:
-- 
2.43.0


From 3d57216d7796b2472d616857ae42fe19396f3164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:30 +0000
Subject: [PATCH 41/48] fix: bind all estimation circuits when one set of
 symbol values is given

---
 src/python/zquantum/core/estimation/_estimation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/estimation/_estimation.py b/src/python/zquantum/core/estimation/_estimation.py
index 852e066..26ed2d6 100644
--- a/src/python/zquantum/core/estimation/_estimation.py
+++ b/src/python/zquantum/core/estimation/_estimation.py
@@ -1,7 +1,7 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
-from typing import Dict, List, Optional, Tuple, cast
+from typing import Dict, List, Optional, Tuple, Union, cast
 
 import numpy as np
 import sympy
@@ -185,7 +185,7 @@ def allocate_shots_proportionally(
 
 def evaluate_estimation_circuits(
     estimation_tasks: List[EstimationTask],
-    symbols_maps: List[Dict[sympy.Symbol, float]],
+    symbols_maps: Union[List[Dict[sympy.Symbol, float]], Dict[sympy.Symbol, float]],
 ) -> List[EstimationTask]:
     """Evaluates circuits given in all estimation tasks using the given symbols_maps.
 
@@ -198,6 +198,10 @@ def evaluate_estimation_circuits(
         symbols_maps: a list of dictionaries (or singular dictionary) that map the
             symbolic symbols used in the parametrized circuits to the associated values
     """
+    if isinstance(symbols_maps, dict):
+        symbols_maps = [symbols_maps]
+    if len(symbols_maps) == 1:
+        symbols_maps = symbols_maps * len(estimation_tasks)
     return [
         EstimationTask(
             operator=estimation_task.operator,
-- 
2.43.0


From 0721f4ade3210c7ff0ff3a9a1e2ba8d81bee3480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:01 +0000
Subject: [PATCH 42/48] fix: evolve the repeated circuit for one Trotter step
 in derivatives of time evolution

---
 src/python/zquantum/core/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/evolution.py b/src/python/zquantum/core/evolution.py
index b884b4d..dc553a1 100644
--- a/src/python/zquantum/core/evolution.py
+++ b/src/python/zquantum/core/evolution.py
@@ -163,7 +163,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", trotter_order=1
+            hamiltonian, time / trotter_order, method="Trotter", trotter_order=1
         )
 
         for position in range(trotter_order):
-- 
2.43.0


From 5bc37585b1c531c3f1ed416c4e9ea4e7640b524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:01 +0000
Subject: [PATCH 43/48] fix: load optimization results with dictionaries of
 numbers that aren't outcome distributions

---
 src/python/zquantum/core/serialization.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index 180ec86..2d522f3 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -32,6 +32,16 @@ def has_numerical_values(dictionary):
     return all(isinstance(value, Number) for value in dictionary.values())
 
 
+def _has_outcomes_as_keys(dictionary):
+    try:
+        return is_measurement_outcome_distribution(
+            preprocess_distibution_dict(dictionary)
+        )
+    except ValueError:
+        # Some keys are not made of integers
+        return False
+
+
 def preprocess(tree):
     """This inflates namedtuples into dictionaries, otherwise they would be serialized
     as lists.
@@ -101,9 +111,7 @@ class OrquestraDecoder(json.JSONDecoder):
         elif "call_number" in obj and "value" in obj:
             cls = HistoryEntry if "artifacts" not in obj else HistoryEntryWithArtifacts
             return cls(**obj)
-        elif has_numerical_values(obj) and is_measurement_outcome_distribution(
-            preprocess_distibution_dict(obj)
-        ):
+        elif has_numerical_values(obj) and _has_outcomes_as_keys(obj):
             return MeasurementOutcomeDistribution(obj, normalize=False)
         elif "schema" in obj and obj["schema"] in self.SCHEMA_MAP:
             return self.SCHEMA_MAP[obj.pop("schema")](obj)
-- 
2.43.0


From 59f58c6a2ffdf018fac356f2ab019bfd58ee2557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:23 +0000
Subject: [PATCH 44/48] fix: refuse a distribution whose values are too large
 to normalize

---
 .../core/distribution/_measurement_outcome_distribution.py    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
index 37c48cb..edb0232 100644
--- a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
+++ b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
@@ -221,6 +221,10 @@ def normalize_measurement_outcome_distribution(
         raise ValueError(
             "Normalization of MeasurementOutcomeDistribution FAILED: too small values."
         )
+    elif not math.isfinite(norm):
+        raise ValueError(
+            "Normalization of MeasurementOutcomeDistribution FAILED: too large values."
+        )
     elif norm == 1:
         return measurement_outcome_distribution
     else:
-- 
2.43.0


From 0305d7c6d1fc0465028c828235abae3452d02ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:23 +0000
Subject: [PATCH 45/48] fix: keep the parameter preprocessors of a cost
 function for every call

---
 src/python/zquantum/core/cost_function.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/cost_function.py b/src/python/zquantum/core/cost_function.py
index d083031..bed942a 100644
--- a/src/python/zquantum/core/cost_function.py
+++ b/src/python/zquantum/core/cost_function.py
@@ -388,10 +388,11 @@ def create_cost_function(
 
     """
 
+    # Needed in every call, whereas an iterator could be used only once.
+    preprocessors = list(parameter_preprocessors or [])
+
     def _cost_function(parameters: np.ndarray) -> Union[float, ValueEstimate]:
-        for preprocessor in (
-            [] if parameter_preprocessors is None else parameter_preprocessors
-        ):
+        for preprocessor in preprocessors:
             parameters = preprocessor(parameters)
 
         estimation_tasks = estimation_tasks_factory(parameters)
-- 
2.43.0


From e7c680873734167364c5b5a711fb316666998696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:27 +0000
Subject: [PATCH 46/48] fix: leave the density matrices of a molecule as they
 are when an RDM is made of them

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index a00bf7e..6006883 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -1163,7 +1163,9 @@ class MolecularData(object):
             one_rdm = self.cisd_one_rdm
             two_rdm = self.cisd_two_rdm
 
-        # Truncate.
+        # Truncate (copies, the molecule keeps its own).
+        one_rdm = numpy.copy(one_rdm)
+        two_rdm = numpy.copy(two_rdm)
         one_rdm[numpy.absolute(one_rdm) < EQ_TOLERANCE] = 0.0
         two_rdm[numpy.absolute(two_rdm) < EQ_TOLERANCE] = 0.0
 
-- 
2.43.0


From 86d41ed6295819e58d79c8bae020d085ffa5e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:27 +0000
Subject: [PATCH 47/48] fix: give the Hermitian conjugate of a real operator
 arrays of its own

---
 src/python/zquantum/core/openfermion/utils/operator_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/utils/operator_utils.py b/src/python/zquantum/core/openfermion/utils/operator_utils.py
index 1bac992..dd8bf1d 100644
--- a/src/python/zquantum/core/openfermion/utils/operator_utils.py
+++ b/src/python/zquantum/core/openfermion/utils/operator_utils.py
@@ -79,7 +79,8 @@ def hermitian_conjugated(operator):
 
     # Handle numpy array
     elif isinstance(operator, numpy.ndarray):
-        conjugate_operator = operator.T.conj()
+        # Always a new array; conj of a real one would be the operator itself
+        conjugate_operator = numpy.conjugate(operator.T)
 
     # Unsupported type
     else:
-- 
2.43.0


From 6b2bf08f2b64a7d31327e53ee7da00300163d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:25 +0000
Subject: [PATCH 48/48] fix: record arrays as they were when the call returned
 them

---
 src/python/zquantum/core/history/recorder.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/history/recorder.py b/src/python/zquantum/core/history/recorder.py
index 9030e9f..13b197c 100644
--- a/src/python/zquantum/core/history/recorder.py
+++ b/src/python/zquantum/core/history/recorder.py
@@ -5,6 +5,7 @@
 import copy
 from typing import Any, Callable, Dict, Generic, List, NamedTuple, TypeVar
 
+import numpy as np
 from typing_extensions import overload
 
 from ..interfaces.functions import (
@@ -55,6 +56,15 @@ class HistoryEntry(NamedTuple):
     value: Any
 
 
+def _as_returned(value):
+    """The value of a call as it was when the call returned it.
+
+    An array may be changed afterwards, by the caller or by a target function filling
+    the same array in every call.
+    """
+    return value.copy() if isinstance(value, np.ndarray) else value
+
+
 def copy_recorder(recorder_to_copy):
     attributes_dict = {
         "target": recorder_to_copy.target,
@@ -111,7 +121,9 @@ class SimpleRecorder(Generic[S, T]):
         return_value = self.target(params)
         if self.predicate(return_value, params, self.call_number):
             self.history.append(
-                HistoryEntry(self.call_number, copy.copy(params), return_value)
+                HistoryEntry(
+                    self.call_number, copy.copy(params), _as_returned(return_value)
+                )
             )
         self.call_number += 1
         return return_value
@@ -162,7 +174,10 @@ class ArtifactRecorder(Generic[S, T]):
         if self.predicate(return_value, params, self.call_number) or artifacts.forced:
             self.history.append(
                 HistoryEntryWithArtifacts(
-                    self.call_number, copy.copy(params), return_value, artifacts
+                    self.call_number,
+                    copy.copy(params),
+                    _as_returned(return_value),
+                    artifacts,
                 )
             )
         self.call_number += 1
-- 
2.43.0

