From 26204ea282a5147b64294fed14789fa714b0440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 01/31] fix: OpSequence.tensor multiplies operations in the
 order they act

---
 horqrux/composite/sequence.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index ad31e8f..637a32c 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -53,7 +53,10 @@ class OpSequence:
                 "Expanding tensor operation requires a `full_support` argument "
                 "larger than or equal to the `qubit_support`."
             )
-        return reduce(jnp.matmul, map(lambda x: x.tensor(values, full_support), self.operations))
+        # the first operation acts first on a state, so it is the rightmost factor
+        return reduce(
+            jnp.matmul, map(lambda x: x.tensor(values, full_support), reversed(self.operations))
+        )
 
     def __iter__(self) -> Iterable:
         def flatten(item: Any) -> Iterable:
-- 
2.43.0


From d2646babbd6e7de79ea18c31ceec6fc610af2b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 02/31] fix: flattening a sequence keeps nested Scale and Add
 operations intact

---
 horqrux/composite/compose.py  |  8 ++++++++
 horqrux/composite/sequence.py | 22 ++++++++++------------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/horqrux/composite/compose.py b/horqrux/composite/compose.py
index 4e0ff5b..571405a 100644
--- a/horqrux/composite/compose.py
+++ b/horqrux/composite/compose.py
@@ -85,6 +85,10 @@ class Add(OpSequence):
     def tree_unflatten(cls, aux_data: Any, children: Any) -> Any:
         return cls(*children, *aux_data)
 
+    def __iter__(self) -> Iterable[Add]:
+        # a sum cannot be flattened into the sequence that contains it
+        return iter((self,))
+
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
         return reduce(add, map(lambda op: op(state, values), self.operations))
 
@@ -128,6 +132,10 @@ class Observable(Add):
     def __init__(self, operations: Primitive | OpSequence | list) -> None:
         super().__init__(list(operations))  # type:ignore[arg-type]
 
+    def __iter__(self) -> Iterable[Add]:
+        # the operator itself, without taking the expectation value
+        return iter((Add(self.operations),))
+
     def forward(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
         return super().__call__(state, values)
 
diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index 637a32c..e7224a0 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -59,18 +59,10 @@ class OpSequence:
         )
 
     def __iter__(self) -> Iterable:
-        def flatten(item: Any) -> Iterable:
-            # If the item is a OpSequence, iterate through its operations
-            if isinstance(item, OpSequence):
-                for sub_item in item.operations:
-                    yield from flatten(sub_item)
-            # If the item is not a OpSequence, yield it directly
-            else:
-                yield item
-
-        # Iterate through the operations and flatten
+        # Nested sequences are flattened, while primitives and compositions that are
+        # not a plain product of their operations (Scale, Add) yield themselves
         for operation in self.operations:
-            yield from flatten(operation)
+            yield from iter(operation)
 
     @property
     def param_names(self) -> set[str]:
@@ -82,7 +74,13 @@ class OpSequence:
         """
         from horqrux.primitives import Parametric
 
-        return set([str(op.param) for op in list(iter(self)) if isinstance(op, Parametric)])  # type: ignore[type-var]
+        names: set[str] = set()
+        for op in self.operations:
+            if isinstance(op, OpSequence):
+                names |= op.param_names
+            elif isinstance(op, Parametric):
+                names.add(str(op.param))
+        return names
 
     @property
     def n_vparams(self) -> int:
-- 
2.43.0


From ef67e5ff7a7930343b9b1ffd860b0b3a5d66d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 03/31] fix: to_sparse/to_dense convert every operation of a
 Scale

---
 horqrux/utils/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/utils/conversion.py b/horqrux/utils/conversion.py
index d29f823..e8bd89c 100644
--- a/horqrux/utils/conversion.py
+++ b/horqrux/utils/conversion.py
@@ -73,12 +73,12 @@ def _(operations: OpSequence) -> OpSequence:
 
 @to_sparse.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_sparse(operations.operations[0]), operations.parameter)
+    return Scale([to_sparse(op) for op in operations.operations], operations.parameter)
 
 
 @to_dense.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_dense(operations.operations[0]), operations.parameter)
+    return Scale([to_dense(op) for op in operations.operations], operations.parameter)
 
 
 @to_sparse.register
-- 
2.43.0


From bdc4626953b2c118fd67b89fb097265f13c5c58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 04/31] fix: to_sparse/to_dense keep the feature parameters of
 a QuantumCircuit

---
 horqrux/utils/conversion.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/horqrux/utils/conversion.py b/horqrux/utils/conversion.py
index e8bd89c..6f49e62 100644
--- a/horqrux/utils/conversion.py
+++ b/horqrux/utils/conversion.py
@@ -83,9 +83,13 @@ def _(operations: Scale) -> Scale:
 
 @to_sparse.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_sparse(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits, [to_sparse(op) for op in operations.operations], operations.fparams
+    )
 
 
 @to_dense.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_dense(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits, [to_dense(op) for op in operations.operations], operations.fparams
+    )
-- 
2.43.0


From 504374ab8f601faa1e324a2827cb0faf7bba1214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 05/31] fix: QuantumCircuit pytree keeps its operations as
 children

---
 horqrux/circuit.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index 0a3cccd..e5d7dba 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -50,16 +50,14 @@ class QuantumCircuit(OpSequence):
         return len(self.vparams)
 
     def tree_flatten(self) -> tuple:
-        children = (
-            self.operations,
-            self.fparams,
-        )
-        aux_data = (self.n_qubits,)
-        return (aux_data, children)
+        children = (self.operations,)
+        aux_data = (self.n_qubits, tuple(self.fparams))
+        return (children, aux_data)
 
     @classmethod
     def tree_unflatten(cls, aux_data: Any, children: Any) -> Any:
-        return cls(*aux_data, *children)
+        n_qubits, fparams = aux_data
+        return cls(n_qubits, *children, list(fparams))
 
 
 def hea(
-- 
2.43.0


From 9db6cafac722b9d5cbb805a2f3e23ab4cc56b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 06/31] fix: register the SQRTSWAP, ISWAP and ISQRTSWAP
 matrices

---
 horqrux/matrices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horqrux/matrices.py b/horqrux/matrices.py
index 19128df..dab8f7a 100644
--- a/horqrux/matrices.py
+++ b/horqrux/matrices.py
@@ -53,6 +53,9 @@ OPERATIONS_DICT = {
     "T": _T,
     "I": _I,
     "SWAP": _SWAP,
+    "SQSWAP": _SQSWAP,
+    "ISWAP": _ISWAP,
+    "ISQSWAP": _ISQSWAP,
 }
 
 SPARSE_OPERATIONS_DICT = {k: BCOO.fromdense(mat) for k, mat in OPERATIONS_DICT.items()}
-- 
2.43.0


From b0afddedab013cb1ccbaf6cdea142c1c09487e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 07/31] fix: numpy integers and arrays are accepted as target
 and control indices

---
 horqrux/primitives/primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 0e8fa6a..bd8dc48 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -39,12 +39,12 @@ class Primitive:
     def parse_idx(
         idx: tuple,
     ) -> tuple:
-        if isinstance(idx, (int, np.int64)):
-            return ((idx,),)
+        if isinstance(idx, (int, np.integer)):
+            return ((int(idx),),)
         elif isinstance(idx, tuple):
-            return (idx,)
+            return (tuple(int(i) if isinstance(i, np.integer) else i for i in idx),)
         else:
-            return (idx.astype(int),)
+            return (tuple(int(i) for i in np.ravel(idx)),)
 
     def __post_init__(self) -> None:
         self.target = Primitive.parse_idx(self.target)
-- 
2.43.0


From c4c4f2397176d51015149e09f629854a219f3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 08/31] fix: group_by_index does not reorder multi-qubit gates

---
 horqrux/apply.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 186eb5f..a453cab 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -281,7 +281,8 @@ def group_by_index(gates: Iterable[Primitive]) -> Iterable[Primitive]:
     sorted_gates = []
     gate_batch = []
     for gate in gates:
-        if not is_controlled(gate.control):
+        # only single-qubit gates can be reordered by their target
+        if not is_controlled(gate.control) and len(gate.target[0]) == 1:
             gate_batch.append(gate)
         else:
             if len(gate_batch) > 0:
-- 
2.43.0


From 61251c6d3d47bad8c68a9989a200fcdce5eacad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 09/31] fix: overlap is the squared modulus of the inner
 product

---
 horqrux/utils/operator_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index e439caf..da12883 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -449,7 +449,7 @@ def inner(state: Array, projection: Array) -> Array:
 
 
 def overlap(state: Array, projection: Array) -> Array:
-    return jnp.power(inner(state, projection), 2).real
+    return jnp.abs(inner(state, projection)) ** 2
 
 
 def uniform_state(n_qubits: int, sparse: bool = False) -> ArrayLike:
-- 
2.43.0


From 7818ae9e61818f7bb4d7c8d8b765bf19e9a0789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 10/31] fix: register the PHASE gate as a pytree node

---
 horqrux/primitives/parametric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 6c13384..746120c 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -198,6 +198,7 @@ def RZ(
     return Parametric("Z", target, control, noise, param=param, sparse=sparse)
 
 
+@register_pytree_node_class
 class _PHASE(Parametric):
     def _unitary(self, values: dict[str, float] = dict()) -> Array:
         u = jnp.eye(2, 2, dtype=default_dtype)
-- 
2.43.0


From 91c2bef99343044d7fc41f6c1bba7c03068099e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 11/31] fix: GPSR with a parameter repeated in PHASE gates
 keeps the gates and their spectral gap

---
 horqrux/differentiation/gpsr/gpsr_utils.py | 4 ++--
 horqrux/primitives/parametric.py           | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/horqrux/differentiation/gpsr/gpsr_utils.py b/horqrux/differentiation/gpsr/gpsr_utils.py
index 0362ca3..f0f9ade 100644
--- a/horqrux/differentiation/gpsr/gpsr_utils.py
+++ b/horqrux/differentiation/gpsr/gpsr_utils.py
@@ -22,7 +22,7 @@ def to_shift(gate: Parametric, shift_value: float) -> Any:
         Any: A new Parametric (Any type due to clsmethod)
     """
     children, aux_data = gate.tree_flatten()
-    return Parametric.tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
+    return type(gate).tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
 
 
 def prepare_param_gates_seq(
@@ -127,7 +127,7 @@ def new_named_parametric(gate: Primitive) -> Parametric:
     """
     children, aux_data = gate.tree_flatten()
     new_name = str(uuid4())
-    new_gate: Parametric = Parametric.tree_unflatten(
+    new_gate: Parametric = type(gate).tree_unflatten(  # type: ignore[assignment]
         aux_data[:-2]
         + (
             new_name,
diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 746120c..3207fa7 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -214,6 +214,15 @@ class _PHASE(Parametric):
             jac = BCOO.fromdense(jac)
         return jac
 
+    @cached_property
+    def spectral_gap(self) -> Array:
+        """Spectral gap value, that of the generator diag(0, 2), controlled or not.
+
+        Returns:
+            Array: Spectral gap value.
+        """
+        return jnp.array([2.0])
+
     @property
     def name(self) -> str:
         base_name = "PHASE"
-- 
2.43.0


From 3bb91d7bb4ba84cb819083592f721095e76768b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 12/31] fix: GPSR detects repeated parameters whatever other
 values are given

---
 horqrux/differentiation/gpsr/analytical.py |  94 +++++++++---------
 horqrux/differentiation/gpsr/shots.py      | 105 ++++++++++-----------
 2 files changed, 93 insertions(+), 106 deletions(-)

diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index f2134da..c0d8fc3 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -13,10 +13,8 @@ from horqrux.differentiation.ad import _ad_expectation_single_observable
 from horqrux.differentiation.gpsr.gpsr_utils import (
     alter_gate_sequence,
     create_renamed_operators,
-    extract_gate_names,
     initialize_gpsr_ingredients,
     prepare_param_gates_seq,
-    spectral_gap_from_gates,
 )
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import State
@@ -99,32 +97,29 @@ def analytical_gpsr_bwd(
 
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
-        gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
-            param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-
-                def jvp_component_repeated_param(param_name: str) -> Array:
-                    shift_gates = param_to_gates_indices[param_name]
-
-                    def shift_jvp(ind: int) -> Array:
-                        spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
-                        gates_up = alter_gate_sequence(gates, ind, shift)
-                        f_up = jitted_analytical_exp(state, gates_up, observables, values)
-                        gates_down = alter_gate_sequence(gates, ind, -shift)
-                        f_down = jitted_analytical_exp(state, gates_down, observables, values)
-                        return (
-                            spectral_gap
-                            * (f_up - f_down)
-                            / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
-                        )
-
-                    return sum(shift_jvp(shift_ind) for shift_ind in shift_gates)
-
-                jvp_caller = jvp_component_repeated_param
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, val_keys)
+        param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
+        # repeated case
+        if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
+
+            def jvp_component_repeated_param(param_name: str) -> Array:
+                shift_gates = param_to_gates_indices[param_name]
+                # parameter which is not used by any gate
+                if len(shift_gates) == 0:
+                    return jvp_component(param_name)
+
+                def shift_jvp(ind: int) -> Array:
+                    spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
+                    gates_up = alter_gate_sequence(gates, ind, shift)
+                    f_up = jitted_analytical_exp(state, gates_up, observables, values)
+                    gates_down = alter_gate_sequence(gates, ind, -shift)
+                    f_down = jitted_analytical_exp(state, gates_down, observables, values)
+                    return (
+                        spectral_gap * (f_up - f_down) / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
+                    )
+
+                return sum(shift_jvp(shift_ind) for shift_ind in shift_gates)
+
+            jvp_caller = jvp_component_repeated_param
 
     jvp = jnp.stack([jvp_caller(param) for param in val_keys]).sum(axis=-1)
     return jvp
@@ -188,28 +183,27 @@ def analytical_gpsr_jvp(
     values_map = None
 
     if not isinstance(gates, Primitive):
-        gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
-            param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-                # use temporary gates and values to make use of scan
-                gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
-                values_map = {
-                    gates[ind].param: pname  # type: ignore[index]
-                    for pname in legit_val_keys
-                    for ind in param_to_gates_indices[pname]
-                }
-                values = {
-                    temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
-                }
-                spectral_gap = {
-                    temp_name: gates[ind].spectral_gap  # type: ignore[index]
-                    for temp_name in values_map.keys()
-                    for ind in param_to_gates_indices[values_map[temp_name]]
-                }
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
+        param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
+        # repeated case
+        if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
+            # use temporary gates and values to make use of scan
+            gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
+            values_map = {
+                gates[ind].param: pname  # type: ignore[index]
+                for pname in legit_val_keys
+                for ind in param_to_gates_indices[pname]
+            }
+            spectral_gap = {
+                gates[ind].param: gates[ind].spectral_gap  # type: ignore[index]
+                for pname in legit_val_keys
+                for ind in param_to_gates_indices[pname]
+            }
+            # parameters which are not used by any gate keep their name
+            for pname in legit_val_keys:
+                if len(param_to_gates_indices[pname]) == 0:
+                    values_map[pname] = pname
+                    spectral_gap[pname] = jnp.array([2.0])
+            values = {temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()}
 
     values_array = stack_sp(list(values.values()))
     if values_array.shape[-1] == 1:
diff --git a/horqrux/differentiation/gpsr/shots.py b/horqrux/differentiation/gpsr/shots.py
index d2ced52..c05238a 100644
--- a/horqrux/differentiation/gpsr/shots.py
+++ b/horqrux/differentiation/gpsr/shots.py
@@ -11,10 +11,8 @@ from horqrux.composite import Observable
 from horqrux.differentiation.gpsr.gpsr_utils import (
     alter_gate_sequence,
     create_renamed_operators,
-    extract_gate_names,
     initialize_gpsr_ingredients,
     prepare_param_gates_seq,
-    spectral_gap_from_gates,
 )
 from horqrux.primitives import Primitive
 from horqrux.shots import finite_shots
@@ -71,41 +69,38 @@ def finite_shots_gpsr_backward(
     params_with_keys = zip(values.keys(), random.split(key, len(values)))
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
-        gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
-            param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-
-                def jvp_component_repeated_param(param_name: str, key: Array) -> Array:
-                    shift_gates = param_to_gates_indices[param_name]
-                    shift_keys = random.split(key, len(shift_gates))
-
-                    def shift_jvp(ind: int, key: Array) -> Array:
-                        up_key, down_key = random.split(key)
-                        spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
-                        gates_up = alter_gate_sequence(gates, ind, shift)  # type: ignore[arg-type]
-                        f_up = jitted_finite_shots(
-                            state, gates_up, observables, values, n_shots, up_key
-                        )
-                        gates_down = alter_gate_sequence(gates, ind, -shift)  # type: ignore[arg-type]
-                        f_down = jitted_finite_shots(
-                            state, gates_down, observables, values, n_shots, down_key
-                        )
-                        return (
-                            spectral_gap
-                            * (f_up - f_down)
-                            / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
-                        )
-
-                    return sum(
-                        shift_jvp(shift_ind, key) for shift_ind, key in zip(shift_gates, shift_keys)
+        param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
+        # repeated case
+        if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
+
+            def jvp_component_repeated_param(param_name: str, key: Array) -> Array:
+                shift_gates = param_to_gates_indices[param_name]
+                # parameter which is not used by any gate
+                if len(shift_gates) == 0:
+                    return jvp_component(param_name, key)
+                shift_keys = random.split(key, len(shift_gates))
+
+                def shift_jvp(ind: int, key: Array) -> Array:
+                    up_key, down_key = random.split(key)
+                    spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
+                    gates_up = alter_gate_sequence(gates, ind, shift)  # type: ignore[arg-type]
+                    f_up = jitted_finite_shots(
+                        state, gates_up, observables, values, n_shots, up_key
+                    )
+                    gates_down = alter_gate_sequence(gates, ind, -shift)  # type: ignore[arg-type]
+                    f_down = jitted_finite_shots(
+                        state, gates_down, observables, values, n_shots, down_key
+                    )
+                    return (
+                        spectral_gap * (f_up - f_down) / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
                     )
 
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, val_keys)
+                return sum(
+                    shift_jvp(shift_ind, key) for shift_ind, key in zip(shift_gates, shift_keys)
+                )
 
             jvp_caller = jvp_component_repeated_param
+
     jvp = jnp.stack([jvp_caller(param, key) for param, key in params_with_keys]).sum(axis=-1)
     return jvp
 
@@ -176,29 +171,27 @@ def finite_shots_jvp(
     values_map = None
 
     if not isinstance(gates, Primitive):
-        gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
-            param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-                # use temporary gates and values to make use of scan
-                gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
-                values_map = {
-                    gates[ind].param: pname  # type: ignore[index]
-                    for pname in legit_val_keys
-                    for ind in param_to_gates_indices[pname]
-                }
-                values = {
-                    temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
-                }
-                spectral_gap = {
-                    temp_name: gates[ind].spectral_gap  # type: ignore[index]
-                    for temp_name in values_map.keys()
-                    for ind in param_to_gates_indices[values_map[temp_name]]
-                }
-
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
+        param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
+        # repeated case
+        if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
+            # use temporary gates and values to make use of scan
+            gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
+            values_map = {
+                gates[ind].param: pname  # type: ignore[index]
+                for pname in legit_val_keys
+                for ind in param_to_gates_indices[pname]
+            }
+            spectral_gap = {
+                gates[ind].param: gates[ind].spectral_gap  # type: ignore[index]
+                for pname in legit_val_keys
+                for ind in param_to_gates_indices[pname]
+            }
+            # parameters which are not used by any gate keep their name
+            for pname in legit_val_keys:
+                if len(param_to_gates_indices[pname]) == 0:
+                    values_map[pname] = pname
+                    spectral_gap[pname] = jnp.array([2.0])
+            values = {temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()}
 
     values_array = stack_sp(list(values.values()))
     if values_array.shape[-1] == 1:
-- 
2.43.0


From 3f9e93da7c9c98f71d65d8b023122efc7c746a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 13/31] fix: finite shots do not share samples between
 observables without common eigenvectors

---
 horqrux/shots.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/horqrux/shots.py b/horqrux/shots.py
index 44c015a..da3fce9 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -100,7 +100,21 @@ def eigen_sample(
     eigs = jax.vmap(jnp.linalg.eigh)(jnp.stack(mat_obs))
     eigvecs, eigvals = align_eigenvectors(eigs.eigenvalues, eigs.eigenvectors)
     probs = eigen_probabilities(state, eigvecs)
-    return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean(axis=0)
+    joint = jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean(axis=0)
+    if len(observables) == 1:
+        return joint
+    # sampling in a single eigenbasis is only meaningful when all observables share it
+    separate = jnp.stack(
+        [
+            jax.random.choice(
+                key=subkey, a=vals, p=eigen_probabilities(state, vecs), shape=(n_shots,)
+            ).mean()
+            for subkey, vals, vecs in zip(
+                jax.random.split(key, len(observables)), eigs.eigenvalues, eigs.eigenvectors
+            )
+        ]
+    )
+    return jnp.where(share_eigenvectors(eigs.eigenvectors), joint, separate)
 
 
 @jax.vmap
@@ -136,6 +150,21 @@ def align_eigenvectors(eigenvalues: Array, eigenvectors: Array) -> tuple[Array,
     return eigenvector, aligned_eigenvalues
 
 
+def share_eigenvectors(eigenvectors: Array, atol: float = 1e-6) -> Array:
+    """Check that all eigenvector matrices are the first one up to a permutation.
+
+    Args:
+        eigenvectors (Array): Stacked eigenvector matrices.
+        atol (float, optional): Tolerance. Defaults to 1e-6.
+
+    Returns:
+        Array: True if they can be aligned.
+    """
+    change_of_basis = jnp.linalg.inv(eigenvectors) @ eigenvectors[0]
+    P = jax.vmap(lambda mat: permutation_matrix(mat, eigenvectors[0]))(eigenvectors)
+    return jnp.all(jnp.abs(change_of_basis - P) < atol)
+
+
 def permutation_matrix(mat: Array, eigenvector_matrix: Array) -> Array:
     """Obtain the permutation matrix for aligning eigenvectors.
 
-- 
2.43.0


From d52a89f58345f4f5f92cb09f5bd76b4b17c8528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 14/31] fix: adjoint and finite-shot expectations accept
 separate circuit and observable values

---
 horqrux/differentiation/adjoint.py | 6 ++++--
 horqrux/shots.py                   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/horqrux/differentiation/adjoint.py b/horqrux/differentiation/adjoint.py
index a5b4b17..d70e79f 100644
--- a/horqrux/differentiation/adjoint.py
+++ b/horqrux/differentiation/adjoint.py
@@ -8,6 +8,7 @@ from horqrux.composite import Observable, OpSequence
 from horqrux.primitives.primitive import Primitive
 from horqrux.utils.operator_utils import OperationType, inner
 from horqrux.utils.sparse_utils import real_sp
+from horqrux.utils.values_utils import _values_processing
 
 
 def ad_expectation(
@@ -17,8 +18,9 @@ def ad_expectation(
     Run 'state' through a sequence of 'gates' given parameters 'values'
     and compute the expectation given an observable.
     """
-    out_state = apply_gates(state, list(iter(circuit)), values, OperationType.UNITARY)  # type: ignore[type-var]
-    projected_state = observable.forward(out_state, values)
+    values_circuit, values_observables = _values_processing(values)
+    out_state = apply_gates(state, list(iter(circuit)), values_circuit, OperationType.UNITARY)  # type: ignore[type-var]
+    projected_state = observable.forward(out_state, values_observables)
     return real_sp(inner(out_state, projected_state))
 
 
diff --git a/horqrux/shots.py b/horqrux/shots.py
index da3fce9..d60ad6e 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -12,6 +12,7 @@ from horqrux.apply import apply_gates
 from horqrux.composite import Observable
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import DensityMatrix, State, expand_operator, num_qubits
+from horqrux.utils.values_utils import _values_processing
 
 
 @singledispatch
@@ -205,9 +206,10 @@ def finite_shots(
     Returns:
         Array: Expectation values.
     """
-    output_gates = apply_gates(state, gates, values)
+    values_circuit, values_observables = _values_processing(values)
+    output_gates = apply_gates(state, gates, values_circuit)
     n_qubits = num_qubits(output_gates)
     if isinstance(output_gates, DensityMatrix):
         d = 2**n_qubits
         output_gates.array = output_gates.array.reshape((d, d))
-    return eigen_sample(output_gates, observables, values, n_qubits, n_shots, key)
+    return eigen_sample(output_gates, observables, values_observables, n_qubits, n_shots, key)
-- 
2.43.0


From ed48a0f2a1965abbcb8cf1720e9c567ebf95109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 15/31] fix: applying an empty sequence of gates leaves the
 state unchanged

---
 horqrux/apply.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index a453cab..b7882de 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -375,8 +375,8 @@ def prepare_sequence_reduce(
         if group_gates:
             gate = group_by_index(gate)
         operator = tuple(getattr(g, op_type)(values) for g in gate)
-        target = reduce(add, [g.target for g in gate])
-        control = reduce(add, [g.control for g in gate])
+        target = reduce(add, [g.target for g in gate], ())
+        control = reduce(add, [g.control for g in gate], ())
         noise = [g.noise for g in gate]
         # merge when no noise is present
         if (noise == [None] * len(noise)) and merge_ops:
-- 
2.43.0


From 3ecd70fe1371b4a8669b13122c392a66035c7ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 16/31] fix: sampling does not reshape the input density matrix
 in place

---
 horqrux/api.py   | 2 +-
 horqrux/shots.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/api.py b/horqrux/api.py
index 6d5ce14..b905d78 100644
--- a/horqrux/api.py
+++ b/horqrux/api.py
@@ -56,7 +56,7 @@ def sample(
     n_qubits = num_qubits(output_circuit)
     if isinstance(output_circuit, DensityMatrix):
         d = 2**n_qubits
-        output_circuit.array = output_circuit.array.reshape((d, d))
+        output_circuit = DensityMatrix(output_circuit.array.reshape((d, d)))
 
     probs = probabilities(output_circuit)
     return sample_from_probs(probs, n_qubits, n_shots)
diff --git a/horqrux/shots.py b/horqrux/shots.py
index d60ad6e..6b34116 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -211,5 +211,5 @@ def finite_shots(
     n_qubits = num_qubits(output_gates)
     if isinstance(output_gates, DensityMatrix):
         d = 2**n_qubits
-        output_gates.array = output_gates.array.reshape((d, d))
+        output_gates = DensityMatrix(output_gates.array.reshape((d, d)))
     return eigen_sample(output_gates, observables, values_observables, n_qubits, n_shots, key)
-- 
2.43.0


From dcaa4c9056c346802a350741d379aac9da9d4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 17/31] fix: the jacobian of a rotation is the derivative of
 its unitary

---
 horqrux/utils/operator_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index da12883..d409008 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -169,8 +169,10 @@ def _(generator: Array, theta: float) -> Array:
     return (
         -1
         / 2
-        * (jnp.sin(theta / 2) * jnp.eye(2, dtype=default_dtype) + 1j * jnp.cos(theta / 2))
-        * generator
+        * (
+            jnp.sin(theta / 2) * jnp.eye(2, dtype=default_dtype)
+            + 1j * jnp.cos(theta / 2) * generator
+        )
     )
 
 
@@ -181,9 +183,8 @@ def _(generator: BCOO, theta: float) -> BCOO:
         / 2
         * (
             jnp.sin(theta / 2) * jax.experimental.sparse.eye(2, dtype=default_dtype)
-            + 1j * jnp.cos(theta / 2)
+            + 1j * jnp.cos(theta / 2) * generator
         )
-        * generator
     )
 
 
-- 
2.43.0


From 9b1548b636456d9a204585ef7db205f8d83e5729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 18/31] fix: the qubit support of a sequence is sorted

---
 horqrux/composite/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index e7224a0..9567e6c 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -27,7 +27,7 @@ class OpSequence:
 
     @property
     def qubit_support(self) -> tuple:
-        return tuple(set().union(*(op.qubit_support for op in self.operations)))
+        return tuple(sorted(set().union(*(op.qubit_support for op in self.operations))))
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
         return reduce(lambda state, gate: gate.__call__(state, values), self.operations, state)
-- 
2.43.0


From f3ac2ed2c800c9bcea2e92401c7bcb3344811394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 19/31] fix: constant rotation angles are not counted as
 parameters

---
 horqrux/composite/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index 9567e6c..d3f8081 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -78,7 +78,7 @@ class OpSequence:
         for op in self.operations:
             if isinstance(op, OpSequence):
                 names |= op.param_names
-            elif isinstance(op, Parametric):
+            elif isinstance(op, Parametric) and op.is_parametric:
                 names.add(str(op.param))
         return names
 
-- 
2.43.0


From bedb60dadb6c04b2665438a4a3663a394eaa526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 20/31] fix: the array of a DensityMatrix is a pytree leaf

---
 horqrux/utils/operator_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index d409008..815a7a3 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -36,9 +36,9 @@ class DensityMatrix:
 
     array: Array
 
-    def tree_flatten(self) -> tuple[tuple, tuple[Array]]:
-        children = ()
-        aux_data = (self.array,)
+    def tree_flatten(self) -> tuple[tuple[Array], tuple]:
+        children = (self.array,)
+        aux_data = ()
         return (children, aux_data)
 
     @classmethod
-- 
2.43.0


From bd384409a81a8f3ec2fcb8da586c6463ebc76a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 21/31] fix: probabilities of a density matrix in tensor form
 are its whole diagonal

---
 horqrux/utils/operator_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 815a7a3..0626e28 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -531,7 +531,8 @@ def _(state: Array) -> Array:
 
 @probabilities.register
 def _(state: DensityMatrix) -> Array:
-    return jnp.diagonal(state.array).real
+    d = int(np.sqrt(state.array.size))
+    return jnp.diagonal(state.array.reshape((d, d))).real
 
 
 @singledispatch
-- 
2.43.0


From f6ee0844790f464a5ea4a8d63c9a6a08dde47102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 22/31] fix: tensor of a sequence of sparse operations

---
 horqrux/composite/sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index d3f8081..67c5808 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -2,9 +2,9 @@ from __future__ import annotations
 
 from dataclasses import dataclass, field
 from functools import reduce
+from operator import matmul
 from typing import Any, Iterable
 
-import jax.numpy as jnp
 from jax import Array
 from jax.tree_util import register_pytree_node_class
 
@@ -55,7 +55,7 @@ class OpSequence:
             )
         # the first operation acts first on a state, so it is the rightmost factor
         return reduce(
-            jnp.matmul, map(lambda x: x.tensor(values, full_support), reversed(self.operations))
+            matmul, map(lambda x: x.tensor(values, full_support), reversed(self.operations))
         )
 
     def __iter__(self) -> Iterable:
-- 
2.43.0


From c689027e8139b511e173282361a344004479d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 23/31] fix: tensor of an operation with unsorted targets

---
 horqrux/primitives/primitive.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index bd8dc48..9e2a2d1 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -17,8 +17,10 @@ from horqrux.utils.operator_utils import (
     _dagger,
     controlled,
     expand_operator,
+    hilbert_reshape,
     is_controlled,
     none_like,
+    permute_basis,
     zero_state,
 )
 
@@ -119,6 +121,11 @@ class Primitive:
             Array: Unitary representation taking into account the qubit support.
         """
         base_unitary = self._unitary(values)
+        if self.target[0] != tuple(sorted(self.target[0])):
+            # the base unitary follows the order of the targets, the tensor the sorted support
+            base_unitary = permute_basis(
+                hilbert_reshape(base_unitary), self.target[0], True
+            ).reshape(base_unitary.shape)
         if is_controlled(self.control):
             base_unitary = controlled(base_unitary, self.target, self.control)
         if full_support is None:
-- 
2.43.0


From b3f41dc327bf7ad21213089440bcb044279daed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 24/31] fix: parameter-shift expectations accept separate
 circuit and observable values

---
 horqrux/differentiation/gpsr/analytical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index c0d8fc3..6cdef3b 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -19,6 +19,7 @@ from horqrux.differentiation.gpsr.gpsr_utils import (
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import State
 from horqrux.utils.sparse_utils import stack_sp
+from horqrux.utils.values_utils import _values_processing
 
 
 def analytical_expectation(
@@ -39,12 +40,13 @@ def analytical_expectation(
     Returns:
         Array: Expectation values.
     """
+    values_circuit, values_observables = _values_processing(values)
     outputs = list(
         map(
             lambda observable: _ad_expectation_single_observable(
-                apply_gates(state, gates, values),
+                apply_gates(state, gates, values_circuit),
                 observable,
-                values,
+                values_observables,
             ),
             observables,
         )
-- 
2.43.0


From 5607c22e79fd29e7ab7702b0d2e56ca02b18dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 25/31] fix: overlap of sparse states

---
 horqrux/utils/operator_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 0626e28..b9ac6aa 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -450,7 +450,10 @@ def inner(state: Array, projection: Array) -> Array:
 
 
 def overlap(state: Array, projection: Array) -> Array:
-    return jnp.abs(inner(state, projection)) ** 2
+    projected = inner(state, projection)
+    if isinstance(projected, BCOO):
+        projected = projected.todense()
+    return jnp.abs(projected) ** 2
 
 
 def uniform_state(n_qubits: int, sparse: bool = False) -> ArrayLike:
-- 
2.43.0


From 5d6d2c089700f3e21813172367a2f079987fbb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 26/31] fix: n_qubits of a gate counts its targets and controls

---
 horqrux/primitives/primitive.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 9e2a2d1..19c6f97 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -139,10 +139,7 @@ class Primitive:
 
     @property
     def n_qubits(self) -> int:
-        n_qubits = len(self.target)
-        if self.control[0] is not None:
-            n_qubits += len(self.control)
-        return n_qubits
+        return len(self.qubit_support)
 
     @property
     def qubit_support(self) -> tuple:
-- 
2.43.0


From fcd79fc118f411da27321a0ee89b7cacd3e5c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 27/31] fix: generator eigenvalues of PHASE, sparse and
 multi-controlled rotations

---
 horqrux/primitives/parametric.py | 34 ++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 3207fa7..3ed64aa 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -7,10 +7,11 @@ from typing import Any
 import jax
 import jax.numpy as jnp
 from jax import Array
-from jax.experimental.sparse import BCOO, bcoo_concatenate, empty
+from jax.experimental.sparse import BCOO
 from jax.tree_util import register_pytree_node_class
 
 from horqrux._misc import default_complex_dtype
+from horqrux.matrices import OPERATIONS_DICT
 from horqrux.noise import NoiseProtocol
 from horqrux.utils.operator_utils import (
     ControlQubits,
@@ -20,7 +21,6 @@ from horqrux.utils.operator_utils import (
     _unitary,
     is_controlled,
 )
-from horqrux.utils.sparse_utils import eigvalsh_sp
 
 from .primitive import Primitive
 
@@ -90,6 +90,11 @@ class Parametric(Primitive):
             + f"(target={self.target}, control={self.control}, param={self.param}, shift={self.shift})"
         )
 
+    @property
+    def _base_generator(self) -> Array:
+        """Dense generator `G` of the uncontrolled operation `exp(-i param G / 2)`."""
+        return OPERATIONS_DICT[self.generator_name]
+
     @cached_property
     def eigenvals_generator(self) -> Array:
         """Get eigenvalues of the underlying operation.
@@ -100,20 +105,14 @@ class Parametric(Primitive):
         Returns:
             Array: Eigenvalues of the operation.
         """
-        eig_vals_generator = eigvalsh_sp(self.generator)
+        # note: there is no eigenvalue decomposition of sparse arrays
+        eig_vals_generator = jnp.linalg.eigvalsh(self._base_generator)
         if is_controlled(self.control):
-            if not self.sparse:
-                eig_vals_generator = jnp.concatenate(
-                    (
-                        jnp.zeros(2 ** (len(self.control)), dtype=eig_vals_generator.dtype),
-                        eig_vals_generator,
-                    )
-                )
-            else:
-                eig_vals_generator = bcoo_concatenate(
-                    empty(2 ** (len(self.control)), dtype=eig_vals_generator.dtype),
-                    eig_vals_generator,
-                )
+            # the generator vanishes where any of the control qubits is 0
+            n_zeros = (2 ** len(self.control[0]) - 1) * eig_vals_generator.size
+            eig_vals_generator = jnp.concatenate(
+                (jnp.zeros(n_zeros, dtype=eig_vals_generator.dtype), eig_vals_generator)
+            )
         return eig_vals_generator
 
     @cached_property
@@ -214,6 +213,11 @@ class _PHASE(Parametric):
             jac = BCOO.fromdense(jac)
         return jac
 
+    @property
+    def _base_generator(self) -> Array:
+        """Dense generator `G` of the uncontrolled operation `exp(-i param G / 2)`."""
+        return jnp.diag(jnp.array([0.0, -2.0], dtype=default_dtype))
+
     @cached_property
     def spectral_gap(self) -> Array:
         """Spectral gap value, that of the generator diag(0, 2), controlled or not.
-- 
2.43.0


From 629b71f000107af702f456c96d6cd7f6f62376c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 28/31] fix: equality of Scale and QuantumCircuit compares all
 their parts

---
 horqrux/circuit.py           | 9 +++++++++
 horqrux/composite/compose.py | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index e5d7dba..a894076 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -31,6 +31,15 @@ class QuantumCircuit(OpSequence):
         self.n_qubits = n_qubits
         self.fparams = fparams
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, QuantumCircuit) or other.__class__ is not self.__class__:
+            return NotImplemented
+        return (self.n_qubits, self.operations, list(self.fparams)) == (
+            other.n_qubits,
+            other.operations,
+            list(other.fparams),
+        )
+
     @property
     def vparams(self) -> set[str]:
         """List of variational parameters of the circuit.
diff --git a/horqrux/composite/compose.py b/horqrux/composite/compose.py
index 571405a..d0a4710 100644
--- a/horqrux/composite/compose.py
+++ b/horqrux/composite/compose.py
@@ -34,6 +34,11 @@ class Scale(OpSequence):
         param = values[self.parameter] if isinstance(self.parameter, str) else self.parameter
         return jnp.array(param) * super().__call__(state, values)
 
+    def __eq__(self, other: object) -> bool:
+        if other.__class__ is not self.__class__:
+            return NotImplemented
+        return (self.operations, self.parameter) == (other.operations, other.parameter)  # type: ignore[attr-defined]
+
     def tree_flatten(self) -> tuple:
         children = (self.operations,)
         aux_data = (self.parameter,)
-- 
2.43.0


From 9fe593796b92f95334a7747765f66cd99ccf71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 29/31] fix: nested tuples of target and control indices are
 accepted

---
 horqrux/primitives/primitive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 19c6f97..e01de81 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -44,6 +44,9 @@ class Primitive:
         if isinstance(idx, (int, np.integer)):
             return ((int(idx),),)
         elif isinstance(idx, tuple):
+            if len(idx) == 1 and isinstance(idx[0], tuple):
+                # the documented form ((0, 1),)
+                idx = idx[0]
             return (tuple(int(i) if isinstance(i, np.integer) else i for i in idx),)
         else:
             return (tuple(int(i) for i in np.ravel(idx)),)
-- 
2.43.0


From 0fdf6ced34752398ad419605460f78604874492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 30/31] fix: operations called without a state start from the
 zero state of their qubits

The state had one qubit per member of the support, whatever the indices, and
a circuit took the size of its first gate: X(1)() and
QuantumCircuit(2, [H(0), X(1, 0)])() raised.
---
 horqrux/circuit.py              |  4 ++++
 horqrux/composite/compose.py    |  4 ++++
 horqrux/composite/sequence.py   | 12 +++++++++++-
 horqrux/primitives/primitive.py |  2 +-
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index a894076..7531a05 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -9,6 +9,7 @@ from jax.tree_util import register_pytree_node_class
 from horqrux.composite.sequence import OpSequence
 from horqrux.primitives.parametric import RX, RY
 from horqrux.primitives.primitive import NOT, Primitive
+from horqrux.utils.operator_utils import State, zero_state
 
 
 @register_pytree_node_class
@@ -40,6 +41,9 @@ class QuantumCircuit(OpSequence):
             list(other.fparams),
         )
 
+    def default_state(self) -> State:
+        return zero_state(self.n_qubits, self.sparse)
+
     @property
     def vparams(self) -> set[str]:
         """List of variational parameters of the circuit.
diff --git a/horqrux/composite/compose.py b/horqrux/composite/compose.py
index d0a4710..1bde5fd 100644
--- a/horqrux/composite/compose.py
+++ b/horqrux/composite/compose.py
@@ -95,6 +95,8 @@ class Add(OpSequence):
         return iter((self,))
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
+        if state is None:
+            state = self.default_state()
         return reduce(add, map(lambda op: op(state, values), self.operations))
 
     def tensor(
@@ -156,4 +158,6 @@ class Observable(Add):
         """
         from horqrux.differentiation.ad import _ad_expectation_single_observable
 
+        if state is None:
+            state = self.default_state()
         return _ad_expectation_single_observable(state, self, values)
diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index 67c5808..2063f36 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -8,7 +8,7 @@ from typing import Any, Iterable
 from jax import Array
 from jax.tree_util import register_pytree_node_class
 
-from horqrux.utils.operator_utils import State
+from horqrux.utils.operator_utils import State, zero_state
 
 
 @register_pytree_node_class
@@ -29,7 +29,17 @@ class OpSequence:
     def qubit_support(self) -> tuple:
         return tuple(sorted(set().union(*(op.qubit_support for op in self.operations))))
 
+    @property
+    def sparse(self) -> bool:
+        return any(op.sparse for op in self.operations)
+
+    def default_state(self) -> State:
+        """The zero state which operations act on when called without a state."""
+        return zero_state(max(self.qubit_support) + 1, self.sparse)
+
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
+        if state is None:
+            state = self.default_state()
         return reduce(lambda state, gate: gate.__call__(state, values), self.operations, state)
 
     def tensor(
diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index e01de81..4ff90f7 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -62,7 +62,7 @@ class Primitive:
         from horqrux.apply import apply_gates
 
         if state is None:
-            state = zero_state(len(self.qubit_support))
+            state = zero_state(max(self.qubit_support) + 1, self.sparse)
         return apply_gates(state, self, values)
 
     def __iter__(self) -> Iterable[Primitive]:
-- 
2.43.0


From ca34864e993f63b3b81efb6d4da2d58404ce5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:30 +0000
Subject: [PATCH 31/31] fix: gates handed to apply_gates as an iterator are
 applied

---
 horqrux/apply.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index b7882de..73a141d 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -372,8 +372,8 @@ def prepare_sequence_reduce(
         operator, target, control = (operator_fn(values),), gate.target, gate.control
         noise += [gate.noise]
     else:
-        if group_gates:
-            gate = group_by_index(gate)
+        # an iterator can only be traversed once
+        gate = group_by_index(gate) if group_gates else list(gate)
         operator = tuple(getattr(g, op_type)(values) for g in gate)
         target = reduce(add, [g.target for g in gate], ())
         control = reduce(add, [g.control for g in gate], ())
-- 
2.43.0

