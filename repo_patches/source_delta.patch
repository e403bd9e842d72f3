From dedae294faa02ef63ab6805a9a4683f3df8dfdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 01/30] fix: QuantumCircuit pytree returned its children as
 auxiliary data and vice versa

---
 horqrux/circuit.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index 0a3cccd..e5d7dba 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -50,16 +50,14 @@ class QuantumCircuit(OpSequence):
         return len(self.vparams)
 
     def tree_flatten(self) -> tuple:
-        children = (
-            self.operations,
-            self.fparams,
-        )
-        aux_data = (self.n_qubits,)
-        return (aux_data, children)
+        children = (self.operations,)
+        aux_data = (self.n_qubits, tuple(self.fparams))
+        return (children, aux_data)
 
     @classmethod
     def tree_unflatten(cls, aux_data: Any, children: Any) -> Any:
-        return cls(*aux_data, *children)
+        n_qubits, fparams = aux_data
+        return cls(n_qubits, *children, list(fparams))
 
 
 def hea(
-- 
2.43.0


From 75a0938760a5449e82ffa7db1ef4caba759c3875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 02/30] fix: Scale of an Add multiplied the operations instead
 of summing them

---
 horqrux/composite/compose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/composite/compose.py b/horqrux/composite/compose.py
index 4e0ff5b..8b7f24a 100644
--- a/horqrux/composite/compose.py
+++ b/horqrux/composite/compose.py
@@ -27,7 +27,8 @@ class Scale(OpSequence):
     def __init__(
         self, operations: Primitive | OpSequence | list, parameter_name: str | float
     ) -> None:
-        super().__init__(list(operations))  # type:ignore[arg-type]
+        # iterating over an `Add` loses the sum, hence it is kept as a single operation
+        super().__init__([operations] if isinstance(operations, Add) else list(operations))  # type:ignore[arg-type]
         self.parameter: str | float = parameter_name
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> Array:
-- 
2.43.0


From 31e910119cce88680254edf1588a585f9584c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 03/30] fix: to_sparse and to_dense dropped operations of Scale
 and fparams of QuantumCircuit

---
 horqrux/utils/conversion.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/horqrux/utils/conversion.py b/horqrux/utils/conversion.py
index d29f823..6f49e62 100644
--- a/horqrux/utils/conversion.py
+++ b/horqrux/utils/conversion.py
@@ -73,19 +73,23 @@ def _(operations: OpSequence) -> OpSequence:
 
 @to_sparse.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_sparse(operations.operations[0]), operations.parameter)
+    return Scale([to_sparse(op) for op in operations.operations], operations.parameter)
 
 
 @to_dense.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_dense(operations.operations[0]), operations.parameter)
+    return Scale([to_dense(op) for op in operations.operations], operations.parameter)
 
 
 @to_sparse.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_sparse(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits, [to_sparse(op) for op in operations.operations], operations.fparams
+    )
 
 
 @to_dense.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_dense(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits, [to_dense(op) for op in operations.operations], operations.fparams
+    )
-- 
2.43.0


From 504154d14d00f102cb1eef268dac41d9d98d06f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 04/30] fix: OpSequence.tensor multiplied its operations in the
 reverse order of __call__

---
 horqrux/composite/sequence.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index ad31e8f..4aa7d49 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -4,7 +4,6 @@ from dataclasses import dataclass, field
 from functools import reduce
 from typing import Any, Iterable
 
-import jax.numpy as jnp
 from jax import Array
 from jax.tree_util import register_pytree_node_class
 
@@ -53,7 +52,12 @@ class OpSequence:
                 "Expanding tensor operation requires a `full_support` argument "
                 "larger than or equal to the `qubit_support`."
             )
-        return reduce(jnp.matmul, map(lambda x: x.tensor(values, full_support), self.operations))
+        # the first operation is applied first, hence it is the rightmost factor
+        return reduce(
+            lambda mat, op: op.tensor(values, full_support) @ mat,
+            self.operations[1:],
+            self.operations[0].tensor(values, full_support),
+        )
 
     def __iter__(self) -> Iterable:
         def flatten(item: Any) -> Iterable:
-- 
2.43.0


From 87e68c2a137b69d8b71e0a143f7713a29069e39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 05/30] fix: OpSequence.qubit_support was unordered for larger
 qubit indices

---
 horqrux/composite/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index 4aa7d49..561e384 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -26,7 +26,7 @@ class OpSequence:
 
     @property
     def qubit_support(self) -> tuple:
-        return tuple(set().union(*(op.qubit_support for op in self.operations)))
+        return tuple(sorted(set().union(*(op.qubit_support for op in self.operations))))
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
         return reduce(lambda state, gate: gate.__call__(state, values), self.operations, state)
-- 
2.43.0


From cbbadf94cc89952aa5d3e800caca6bed985271d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 06/30] fix: DensityMatrix kept its array as static pytree data

---
 horqrux/utils/operator_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index e439caf..0cc43bc 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -36,9 +36,9 @@ class DensityMatrix:
 
     array: Array
 
-    def tree_flatten(self) -> tuple[tuple, tuple[Array]]:
-        children = ()
-        aux_data = (self.array,)
+    def tree_flatten(self) -> tuple[tuple[Array], tuple]:
+        children = (self.array,)
+        aux_data = ()
         return (children, aux_data)
 
     @classmethod
-- 
2.43.0


From b8e6e254262fc4fd771c8fd5fde9eba9f00af2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 07/30] fix: SQRTSWAP, ISWAP and ISQRTSWAP raised a KeyError
 when applied

---
 horqrux/matrices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horqrux/matrices.py b/horqrux/matrices.py
index 19128df..dab8f7a 100644
--- a/horqrux/matrices.py
+++ b/horqrux/matrices.py
@@ -53,6 +53,9 @@ OPERATIONS_DICT = {
     "T": _T,
     "I": _I,
     "SWAP": _SWAP,
+    "SQSWAP": _SQSWAP,
+    "ISWAP": _ISWAP,
+    "ISQSWAP": _ISQSWAP,
 }
 
 SPARSE_OPERATIONS_DICT = {k: BCOO.fromdense(mat) for k, mat in OPERATIONS_DICT.items()}
-- 
2.43.0


From 4f0be2a9cafa5038925e05042c70be1d3e0a837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 08/30] fix: group_by_index moved gates across multi-target
 gates they do not commute with

---
 horqrux/apply.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 186eb5f..f7e61c9 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -277,11 +277,14 @@ def apply_operator_with_noise(
 
 
 def group_by_index(gates: Iterable[Primitive]) -> Iterable[Primitive]:
-    """Group gates together which are acting on the same qubit."""
+    """Group gates together which are acting on the same qubit.
+
+    Only gates on a single qubit are moved.
+    """
     sorted_gates = []
     gate_batch = []
     for gate in gates:
-        if not is_controlled(gate.control):
+        if not is_controlled(gate.control) and len(gate.target[0]) == 1:
             gate_batch.append(gate)
         else:
             if len(gate_batch) > 0:
-- 
2.43.0


From d4bdbbcae0acdbe0627741824b68a8b2289ddfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 09/30] fix: sample and finite_shots reshaped the density
 matrix of the caller in place

---
 horqrux/api.py   | 2 +-
 horqrux/shots.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/api.py b/horqrux/api.py
index 6d5ce14..b905d78 100644
--- a/horqrux/api.py
+++ b/horqrux/api.py
@@ -56,7 +56,7 @@ def sample(
     n_qubits = num_qubits(output_circuit)
     if isinstance(output_circuit, DensityMatrix):
         d = 2**n_qubits
-        output_circuit.array = output_circuit.array.reshape((d, d))
+        output_circuit = DensityMatrix(output_circuit.array.reshape((d, d)))
 
     probs = probabilities(output_circuit)
     return sample_from_probs(probs, n_qubits, n_shots)
diff --git a/horqrux/shots.py b/horqrux/shots.py
index 44c015a..0819a5b 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -180,5 +180,5 @@ def finite_shots(
     n_qubits = num_qubits(output_gates)
     if isinstance(output_gates, DensityMatrix):
         d = 2**n_qubits
-        output_gates.array = output_gates.array.reshape((d, d))
+        output_gates = DensityMatrix(output_gates.array.reshape((d, d)))
     return eigen_sample(output_gates, observables, values, n_qubits, n_shots, key)
-- 
2.43.0


From bb217fb9f5c4b77e0ba5ce795a90924b29884fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 10/30] fix: spectral gaps computed under jit were cached on
 the gate as leaked tracers

---
 horqrux/primitives/parametric.py | 40 ++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 6c13384..98ec8fe 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -100,20 +100,22 @@ class Parametric(Primitive):
         Returns:
             Array: Eigenvalues of the operation.
         """
-        eig_vals_generator = eigvalsh_sp(self.generator)
-        if is_controlled(self.control):
-            if not self.sparse:
-                eig_vals_generator = jnp.concatenate(
-                    (
-                        jnp.zeros(2 ** (len(self.control)), dtype=eig_vals_generator.dtype),
+        # the result is cached on the gate, hence it must not be a tracer
+        with jax.ensure_compile_time_eval():
+            eig_vals_generator = eigvalsh_sp(self.generator)
+            if is_controlled(self.control):
+                if not self.sparse:
+                    eig_vals_generator = jnp.concatenate(
+                        (
+                            jnp.zeros(2 ** (len(self.control)), dtype=eig_vals_generator.dtype),
+                            eig_vals_generator,
+                        )
+                    )
+                else:
+                    eig_vals_generator = bcoo_concatenate(
+                        empty(2 ** (len(self.control)), dtype=eig_vals_generator.dtype),
                         eig_vals_generator,
                     )
-                )
-            else:
-                eig_vals_generator = bcoo_concatenate(
-                    empty(2 ** (len(self.control)), dtype=eig_vals_generator.dtype),
-                    eig_vals_generator,
-                )
         return eig_vals_generator
 
     @cached_property
@@ -123,12 +125,14 @@ class Parametric(Primitive):
         Returns:
             Array: Spectral gap value.
         """
-        spectrum = jnp.atleast_2d(self.eigenvals_generator)
-        diffs = spectrum - spectrum.T
-        # note for jitting, must specify a size
-        # atm only size 2 is acceptable given all possible generators in OPERATIONS_DICT
-        spectral_gap = unique_jit(jnp.abs(jnp.tril(diffs)), size=2)
-        return spectral_gap[nonzero_jit(spectral_gap, size=1)]
+        # the result is cached on the gate, hence it must not be a tracer
+        with jax.ensure_compile_time_eval():
+            spectrum = jnp.atleast_2d(self.eigenvals_generator)
+            diffs = spectrum - spectrum.T
+            # note for jitting, must specify a size
+            # atm only size 2 is acceptable given all possible generators in OPERATIONS_DICT
+            spectral_gap = unique_jit(jnp.abs(jnp.tril(diffs)), size=2)
+            return spectral_gap[nonzero_jit(spectral_gap, size=1)]
 
     @property
     def is_parametric(self) -> bool:
-- 
2.43.0


From 47e06f295bc85cb2cc2efe126a46599c1f05ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 11/30] fix: PHASE gates were not registered as pytrees and
 could not be passed to jitted functions

---
 horqrux/primitives/parametric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 98ec8fe..5d6829b 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -202,6 +202,7 @@ def RZ(
     return Parametric("Z", target, control, noise, param=param, sparse=sparse)
 
 
+@register_pytree_node_class
 class _PHASE(Parametric):
     def _unitary(self, values: dict[str, float] = dict()) -> Array:
         u = jnp.eye(2, 2, dtype=default_dtype)
-- 
2.43.0


From 1f989197b9313e1da76898bf296e57ebf63ad956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 12/30] fix: GPSR turned PHASE gates with a repeated parameter
 into gates with generator I

---
 horqrux/differentiation/gpsr/gpsr_utils.py |  4 ++--
 horqrux/primitives/parametric.py           | 11 ++++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/horqrux/differentiation/gpsr/gpsr_utils.py b/horqrux/differentiation/gpsr/gpsr_utils.py
index 0362ca3..f0f9ade 100644
--- a/horqrux/differentiation/gpsr/gpsr_utils.py
+++ b/horqrux/differentiation/gpsr/gpsr_utils.py
@@ -22,7 +22,7 @@ def to_shift(gate: Parametric, shift_value: float) -> Any:
         Any: A new Parametric (Any type due to clsmethod)
     """
     children, aux_data = gate.tree_flatten()
-    return Parametric.tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
+    return type(gate).tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
 
 
 def prepare_param_gates_seq(
@@ -127,7 +127,7 @@ def new_named_parametric(gate: Primitive) -> Parametric:
     """
     children, aux_data = gate.tree_flatten()
     new_name = str(uuid4())
-    new_gate: Parametric = Parametric.tree_unflatten(
+    new_gate: Parametric = type(gate).tree_unflatten(  # type: ignore[assignment]
         aux_data[:-2]
         + (
             new_name,
diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 5d6829b..d287cfb 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -90,6 +90,10 @@ class Parametric(Primitive):
             + f"(target={self.target}, control={self.control}, param={self.param}, shift={self.shift})"
         )
 
+    def _base_eigenvals_generator(self) -> Array:
+        """Get eigenvalues of the generator, without its control qubits."""
+        return eigvalsh_sp(self.generator)
+
     @cached_property
     def eigenvals_generator(self) -> Array:
         """Get eigenvalues of the underlying operation.
@@ -102,7 +106,7 @@ class Parametric(Primitive):
         """
         # the result is cached on the gate, hence it must not be a tracer
         with jax.ensure_compile_time_eval():
-            eig_vals_generator = eigvalsh_sp(self.generator)
+            eig_vals_generator = self._base_eigenvals_generator()
             if is_controlled(self.control):
                 if not self.sparse:
                     eig_vals_generator = jnp.concatenate(
@@ -211,6 +215,11 @@ class _PHASE(Parametric):
             u = BCOO.fromdense(u)
         return u
 
+    def _base_eigenvals_generator(self) -> Array:
+        # PHASE is exp(-i param / 2 G) with G = diag(0, -2)
+        eig_vals_generator = jnp.array([-2.0, 0.0])
+        return BCOO.fromdense(eig_vals_generator) if self.sparse else eig_vals_generator
+
     def jacobian(self, values: dict[str, float] = dict()) -> Array:
         jac = jnp.zeros((2, 2), dtype=default_dtype)
         jac = jac.at[(1, 1)].set(1j * jnp.exp(1.0j * self.parse_values(values)))
-- 
2.43.0


From 4ea666894938aaae4c90777b5f093a4f37a81327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 13/30] fix: GPSR gradients with a repeated parameter ignored
 it when values had other names

---
 horqrux/differentiation/gpsr/analytical.py | 88 ++++++++++---------
 horqrux/differentiation/gpsr/shots.py      | 98 +++++++++++-----------
 2 files changed, 90 insertions(+), 96 deletions(-)

diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index f2134da..05ff0a7 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -16,7 +16,6 @@ from horqrux.differentiation.gpsr.gpsr_utils import (
     extract_gate_names,
     initialize_gpsr_ingredients,
     prepare_param_gates_seq,
-    spectral_gap_from_gates,
 )
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import State
@@ -100,31 +99,30 @@ def analytical_gpsr_bwd(
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
+        # repeated case
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-
-                def jvp_component_repeated_param(param_name: str) -> Array:
-                    shift_gates = param_to_gates_indices[param_name]
-
-                    def shift_jvp(ind: int) -> Array:
-                        spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
-                        gates_up = alter_gate_sequence(gates, ind, shift)
-                        f_up = jitted_analytical_exp(state, gates_up, observables, values)
-                        gates_down = alter_gate_sequence(gates, ind, -shift)
-                        f_down = jitted_analytical_exp(state, gates_down, observables, values)
-                        return (
-                            spectral_gap
-                            * (f_up - f_down)
-                            / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
-                        )
-
-                    return sum(shift_jvp(shift_ind) for shift_ind in shift_gates)
-
-                jvp_caller = jvp_component_repeated_param
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, val_keys)
+
+            def jvp_component_repeated_param(param_name: str) -> Array:
+                shift_gates = param_to_gates_indices[param_name]
+                if len(shift_gates) == 0:
+                    return jvp_component(param_name)
+
+                def shift_jvp(ind: int) -> Array:
+                    spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
+                    gates_up = alter_gate_sequence(gates, ind, shift)
+                    f_up = jitted_analytical_exp(state, gates_up, observables, values)
+                    gates_down = alter_gate_sequence(gates, ind, -shift)
+                    f_down = jitted_analytical_exp(state, gates_down, observables, values)
+                    return (
+                        spectral_gap
+                        * (f_up - f_down)
+                        / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
+                    )
+
+                return sum(shift_jvp(shift_ind) for shift_ind in shift_gates)
+
+            jvp_caller = jvp_component_repeated_param
 
     jvp = jnp.stack([jvp_caller(param) for param in val_keys]).sum(axis=-1)
     return jvp
@@ -189,27 +187,27 @@ def analytical_gpsr_jvp(
 
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
+        # repeated case
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-                # use temporary gates and values to make use of scan
-                gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
-                values_map = {
-                    gates[ind].param: pname  # type: ignore[index]
-                    for pname in legit_val_keys
-                    for ind in param_to_gates_indices[pname]
-                }
-                values = {
-                    temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
-                }
-                spectral_gap = {
-                    temp_name: gates[ind].spectral_gap  # type: ignore[index]
-                    for temp_name in values_map.keys()
-                    for ind in param_to_gates_indices[values_map[temp_name]]
-                }
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
+            # use temporary gates and values to make use of scan
+            gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
+            values_map = {
+                gates[ind].param: pname  # type: ignore[index]
+                for pname in legit_val_keys
+                for ind in param_to_gates_indices[pname]
+            }
+            spectral_gap = {
+                gates[ind].param: gates[ind].spectral_gap  # type: ignore[index]
+                for pname in legit_val_keys
+                for ind in param_to_gates_indices[pname]
+            }
+            # names not used by any gate keep their name
+            for pname in legit_val_keys:
+                if len(param_to_gates_indices[pname]) == 0:
+                    values_map[pname] = pname
+                    spectral_gap[pname] = jnp.array([2.0])
+            values = {temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()}
 
     values_array = stack_sp(list(values.values()))
     if values_array.shape[-1] == 1:
diff --git a/horqrux/differentiation/gpsr/shots.py b/horqrux/differentiation/gpsr/shots.py
index d2ced52..35ab300 100644
--- a/horqrux/differentiation/gpsr/shots.py
+++ b/horqrux/differentiation/gpsr/shots.py
@@ -14,7 +14,6 @@ from horqrux.differentiation.gpsr.gpsr_utils import (
     extract_gate_names,
     initialize_gpsr_ingredients,
     prepare_param_gates_seq,
-    spectral_gap_from_gates,
 )
 from horqrux.primitives import Primitive
 from horqrux.shots import finite_shots
@@ -72,38 +71,36 @@ def finite_shots_gpsr_backward(
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
+        # repeated case
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-
-                def jvp_component_repeated_param(param_name: str, key: Array) -> Array:
-                    shift_gates = param_to_gates_indices[param_name]
-                    shift_keys = random.split(key, len(shift_gates))
-
-                    def shift_jvp(ind: int, key: Array) -> Array:
-                        up_key, down_key = random.split(key)
-                        spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
-                        gates_up = alter_gate_sequence(gates, ind, shift)  # type: ignore[arg-type]
-                        f_up = jitted_finite_shots(
-                            state, gates_up, observables, values, n_shots, up_key
-                        )
-                        gates_down = alter_gate_sequence(gates, ind, -shift)  # type: ignore[arg-type]
-                        f_down = jitted_finite_shots(
-                            state, gates_down, observables, values, n_shots, down_key
-                        )
-                        return (
-                            spectral_gap
-                            * (f_up - f_down)
-                            / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
-                        )
-
-                    return sum(
-                        shift_jvp(shift_ind, key) for shift_ind, key in zip(shift_gates, shift_keys)
+
+            def jvp_component_repeated_param(param_name: str, key: Array) -> Array:
+                shift_gates = param_to_gates_indices[param_name]
+                if len(shift_gates) == 0:
+                    return jvp_component(param_name, key)
+                shift_keys = random.split(key, len(shift_gates))
+
+                def shift_jvp(ind: int, key: Array) -> Array:
+                    up_key, down_key = random.split(key)
+                    spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
+                    gates_up = alter_gate_sequence(gates, ind, shift)  # type: ignore[arg-type]
+                    f_up = jitted_finite_shots(
+                        state, gates_up, observables, values, n_shots, up_key
+                    )
+                    gates_down = alter_gate_sequence(gates, ind, -shift)  # type: ignore[arg-type]
+                    f_down = jitted_finite_shots(
+                        state, gates_down, observables, values, n_shots, down_key
+                    )
+                    return (
+                        spectral_gap
+                        * (f_up - f_down)
+                        / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
                     )
 
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, val_keys)
+                return sum(
+                    shift_jvp(shift_ind, key) for shift_ind, key in zip(shift_gates, shift_keys)
+                )
 
             jvp_caller = jvp_component_repeated_param
     jvp = jnp.stack([jvp_caller(param, key) for param, key in params_with_keys]).sum(axis=-1)
@@ -177,28 +174,27 @@ def finite_shots_jvp(
 
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
+        # repeated case
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-                # use temporary gates and values to make use of scan
-                gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
-                values_map = {
-                    gates[ind].param: pname  # type: ignore[index]
-                    for pname in legit_val_keys
-                    for ind in param_to_gates_indices[pname]
-                }
-                values = {
-                    temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
-                }
-                spectral_gap = {
-                    temp_name: gates[ind].spectral_gap  # type: ignore[index]
-                    for temp_name in values_map.keys()
-                    for ind in param_to_gates_indices[values_map[temp_name]]
-                }
-
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
+            # use temporary gates and values to make use of scan
+            gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
+            values_map = {
+                gates[ind].param: pname  # type: ignore[index]
+                for pname in legit_val_keys
+                for ind in param_to_gates_indices[pname]
+            }
+            spectral_gap = {
+                gates[ind].param: gates[ind].spectral_gap  # type: ignore[index]
+                for pname in legit_val_keys
+                for ind in param_to_gates_indices[pname]
+            }
+            # names not used by any gate keep their name
+            for pname in legit_val_keys:
+                if len(param_to_gates_indices[pname]) == 0:
+                    values_map[pname] = pname
+                    spectral_gap[pname] = jnp.array([2.0])
+            values = {temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()}
 
     values_array = stack_sp(list(values.values()))
     if values_array.shape[-1] == 1:
-- 
2.43.0


From 07769edfbb9faef117064e980a2af715a1185979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 14/30] fix: GPSR derivatives with respect to observable
 parameters were off by a factor pi/2

---
 horqrux/differentiation/gpsr/analytical.py | 22 ++++++-------------
 horqrux/differentiation/gpsr/gpsr_utils.py | 25 ++++++++++++++++++++--
 horqrux/differentiation/gpsr/shots.py      | 22 ++++++-------------
 3 files changed, 37 insertions(+), 32 deletions(-)

diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index 05ff0a7..c0f2710 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -16,6 +16,7 @@ from horqrux.differentiation.gpsr.gpsr_utils import (
     extract_gate_names,
     initialize_gpsr_ingredients,
     prepare_param_gates_seq,
+    shift_rule,
 )
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import State
@@ -80,7 +81,7 @@ def analytical_gpsr_bwd(
     Returns:
         Array: Gradients via the GPSR algorithm.
     """
-    val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
+    val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values, gates)
 
     def jvp_component(param_name: str) -> Array:
         up_val = values.copy()
@@ -89,12 +90,7 @@ def analytical_gpsr_bwd(
         down_val = values.copy()
         down_val[param_name] = down_val[param_name] - shift
         f_down = jitted_analytical_exp(state, gates, observables, down_val)
-        grad = (
-            spectral_gap[param_name]
-            * (f_up - f_down)
-            / (4.0 * jnp.sin(spectral_gap[param_name] * shift / 2.0))
-        )
-        return grad
+        return shift_rule(f_up, f_down, spectral_gap[param_name], shift)
 
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
@@ -114,11 +110,7 @@ def analytical_gpsr_bwd(
                     f_up = jitted_analytical_exp(state, gates_up, observables, values)
                     gates_down = alter_gate_sequence(gates, ind, -shift)
                     f_down = jitted_analytical_exp(state, gates_down, observables, values)
-                    return (
-                        spectral_gap
-                        * (f_up - f_down)
-                        / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
-                    )
+                    return shift_rule(f_up, f_down, spectral_gap, shift)
 
                 return sum(shift_jvp(shift_ind) for shift_ind in shift_gates)
 
@@ -182,7 +174,7 @@ def analytical_gpsr_jvp(
     tangent_dict = tangents[0]
     fwd = analytical_gpsr_fwd(state, gates, observable, values)
 
-    legit_val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
+    legit_val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values, gates)
     values_map = None
 
     if not isinstance(gates, Primitive):
@@ -206,7 +198,7 @@ def analytical_gpsr_jvp(
             for pname in legit_val_keys:
                 if len(param_to_gates_indices[pname]) == 0:
                     values_map[pname] = pname
-                    spectral_gap[pname] = jnp.array([2.0])
+                    spectral_gap[pname] = jnp.array([0.0])
             values = {temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()}
 
     values_array = stack_sp(list(values.values()))
@@ -224,7 +216,7 @@ def analytical_gpsr_jvp(
         f_up = analytical_gpsr_fwd(state, gates, observable, up_val)
         down_val = values_to_dict(values_array - shift_vector)
         f_down = analytical_gpsr_fwd(state, gates, observable, down_val)
-        grad = spectral_gap * (f_up - f_down) / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
+        grad = shift_rule(f_up, f_down, spectral_gap, shift)
         return carry_grad + grad, grad
 
     spectral_gap_array = stack_sp(list(spectral_gap.values()))
diff --git a/horqrux/differentiation/gpsr/gpsr_utils.py b/horqrux/differentiation/gpsr/gpsr_utils.py
index f0f9ade..08d2468 100644
--- a/horqrux/differentiation/gpsr/gpsr_utils.py
+++ b/horqrux/differentiation/gpsr/gpsr_utils.py
@@ -63,22 +63,43 @@ def alter_gate_sequence(gates: Iterable[Any], ind_alter: int, shift_val: float)
 
 
 def initialize_gpsr_ingredients(
-    values: dict[str, float]
+    values: dict[str, float], gates: Primitive | Iterable[Primitive]
 ) -> tuple[tuple[str, ...], dict[str, float], Array]:
     """Initialize the parameter names, spectral_gap, and shift value for GPSR.
 
     Args:
         values (dict[str, float]): Parameter values.
+        gates (Primitive | Iterable[Primitive]): Gate(s) using the parameters.
 
     Returns:
         tuple[tuple[str, ...], dict[str, float], Array]: parameter names, spectral_gap, and shift value.
     """
     val_keys = tuple(values.keys())
-    spectral_gap = dict.fromkeys(val_keys, 2.0)
+    gate_names = extract_gate_names(gates)
+    # a name which no gate uses can only be one of an observable
+    spectral_gap = {name: 2.0 if name in gate_names else 0.0 for name in val_keys}
     shift = jnp.pi / 2
     return val_keys, spectral_gap, shift
 
 
+def shift_rule(f_up: Array, f_down: Array, spectral_gap: float, shift: float) -> Array:
+    """Parameter shift rule for a single spectral gap.
+
+    A zero gap denotes a parameter of an observable, of which the expectation is a linear function.
+
+    Args:
+        f_up (Array): Expectation for the parameter shifted up.
+        f_down (Array): Expectation for the parameter shifted down.
+        spectral_gap (float): Spectral gap of the parameter.
+        shift (float): Shift value.
+
+    Returns:
+        Array: Derivative.
+    """
+    # equals gap * (f_up - f_down) / (4 * sin(gap * shift / 2)) for non-zero gaps
+    return (f_up - f_down) / (2.0 * shift * jnp.sinc(spectral_gap * shift / (2.0 * jnp.pi)))
+
+
 def extract_gate_names(gates: Iterable[Primitive]) -> list:
     """Extract gate names when a gate is parametric.
 
diff --git a/horqrux/differentiation/gpsr/shots.py b/horqrux/differentiation/gpsr/shots.py
index 35ab300..eebd5c1 100644
--- a/horqrux/differentiation/gpsr/shots.py
+++ b/horqrux/differentiation/gpsr/shots.py
@@ -14,6 +14,7 @@ from horqrux.differentiation.gpsr.gpsr_utils import (
     extract_gate_names,
     initialize_gpsr_ingredients,
     prepare_param_gates_seq,
+    shift_rule,
 )
 from horqrux.primitives import Primitive
 from horqrux.shots import finite_shots
@@ -50,7 +51,7 @@ def finite_shots_gpsr_backward(
     Returns:
         Array: Gradients.
     """
-    val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
+    val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values, gates)
 
     def jvp_component(param_name: str, key: Array) -> Array:
         up_key, down_key = random.split(key)
@@ -60,12 +61,7 @@ def finite_shots_gpsr_backward(
         down_val = values.copy()
         down_val[param_name] = down_val[param_name] - shift
         f_down = jitted_finite_shots(state, gates, observables, down_val, n_shots, down_key)
-        grad = (
-            spectral_gap[param_name]
-            * (f_up - f_down)
-            / (4.0 * jnp.sin(spectral_gap[param_name] * shift / 2.0))
-        )
-        return grad
+        return shift_rule(f_up, f_down, spectral_gap[param_name], shift)
 
     params_with_keys = zip(values.keys(), random.split(key, len(values)))
     jvp_caller = jvp_component
@@ -92,11 +88,7 @@ def finite_shots_gpsr_backward(
                     f_down = jitted_finite_shots(
                         state, gates_down, observables, values, n_shots, down_key
                     )
-                    return (
-                        spectral_gap
-                        * (f_up - f_down)
-                        / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
-                    )
+                    return shift_rule(f_up, f_down, spectral_gap, shift)
 
                 return sum(
                     shift_jvp(shift_ind, key) for shift_ind, key in zip(shift_gates, shift_keys)
@@ -169,7 +161,7 @@ def finite_shots_jvp(
     tangent_dict = tangents[0]
     fwd = finite_shots_fwd(state, gates, observable, values, n_shots, key)
 
-    legit_val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
+    legit_val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values, gates)
     values_map = None
 
     if not isinstance(gates, Primitive):
@@ -193,7 +185,7 @@ def finite_shots_jvp(
             for pname in legit_val_keys:
                 if len(param_to_gates_indices[pname]) == 0:
                     values_map[pname] = pname
-                    spectral_gap[pname] = jnp.array([2.0])
+                    spectral_gap[pname] = jnp.array([0.0])
             values = {temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()}
 
     values_array = stack_sp(list(values.values()))
@@ -213,7 +205,7 @@ def finite_shots_jvp(
         f_up = finite_shots_fwd(state, gates, observable, up_val, n_shots, up_key)
         down_val = values_to_dict(values_array - shift_vector)
         f_down = finite_shots_fwd(state, gates, observable, down_val, n_shots, down_key)
-        grad = spectral_gap * (f_up - f_down) / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
+        grad = shift_rule(f_up, f_down, spectral_gap, shift)
         return carry_grad + grad, grad
 
     spectral_gap_array = stack_sp(list(spectral_gap.values()))
-- 
2.43.0


From cf596629c9b8fd6547d2d500f36aa5359dd07e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 15/30] fix: finite shots silently sampled observables without
 a common eigenbasis in the wrong basis

---
 horqrux/shots.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/horqrux/shots.py b/horqrux/shots.py
index 0819a5b..12f65c5 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -6,7 +6,6 @@ from typing import Any, Iterable, Union
 import jax
 import jax.numpy as jnp
 from jax import Array
-from jax.experimental import checkify
 
 from horqrux.apply import apply_gates
 from horqrux.composite import Observable
@@ -98,9 +97,21 @@ def eigen_sample(
         )
     )
     eigs = jax.vmap(jnp.linalg.eigh)(jnp.stack(mat_obs))
-    eigvecs, eigvals = align_eigenvectors(eigs.eigenvalues, eigs.eigenvectors)
+    eigvecs, eigvals, aligned = align_eigenvectors(eigs.eigenvalues, eigs.eigenvectors)
     probs = eigen_probabilities(state, eigvecs)
-    return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean(axis=0)
+    joint = jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean(axis=0)
+    if len(observables) == 1:
+        return joint
+
+    # an observable which does not share the eigenbasis of the first one is sampled in its own
+    def sample_separately(eigvals: Array, eigvecs: Array, key: Array) -> Array:
+        probs = eigen_probabilities(state, eigvecs)
+        return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean()
+
+    separate = jax.vmap(sample_separately)(
+        eigs.eigenvalues, eigs.eigenvectors, jax.random.split(key, len(observables))
+    )
+    return jnp.where(aligned, joint, separate)
 
 
 @jax.vmap
@@ -111,14 +122,7 @@ def validate_permutation_matrix(P: Array) -> Array:
     return ((ones == rows) & (ones == columns)).min()
 
 
-def checkify_valid_permutation(P: Array) -> None:
-    checkify.check(
-        jnp.all(validate_permutation_matrix(P)),
-        "Did not calculate valid permutation matrix",
-    )
-
-
-def align_eigenvectors(eigenvalues: Array, eigenvectors: Array) -> tuple[Array, Array]:
+def align_eigenvectors(eigenvalues: Array, eigenvectors: Array) -> tuple[Array, Array, Array]:
     """
     Given a list of eigenvalue eigenvector matrix tuples in the form of
     [(eigenvalue, eigenvector)...], this function aligns all the eigenvector
@@ -127,13 +131,17 @@ def align_eigenvectors(eigenvalues: Array, eigenvectors: Array) -> tuple[Array,
 
     This is primarily used as a utility function to help sample multiple
     correlated observables when using finite shots.
+
+    The last output tells for each eigenvector matrix if it could be aligned, that is
+    if it is a permutation of the first one up to phases.
     """
     eigenvector = eigenvectors[0]
 
+    overlaps = jax.vmap(lambda mat: jnp.abs(jnp.linalg.inv(mat) @ eigenvector))(eigenvectors)
     P = jax.vmap(lambda mat: permutation_matrix(mat, eigenvector))(eigenvectors)
-    checkify.checkify(checkify_valid_permutation)(P)
+    aligned = validate_permutation_matrix(P) & (jnp.abs(overlaps - P) < 1e-6).all(axis=(1, 2))
     aligned_eigenvalues = jax.vmap(jnp.dot)(eigenvalues, P).T
-    return eigenvector, aligned_eigenvalues
+    return eigenvector, aligned_eigenvalues, aligned
 
 
 def permutation_matrix(mat: Array, eigenvector_matrix: Array) -> Array:
@@ -151,7 +159,7 @@ def permutation_matrix(mat: Array, eigenvector_matrix: Array) -> Array:
     Returns:
         Array: Permutation matrix P.
     """
-    return (jnp.linalg.inv(mat) @ eigenvector_matrix).real > 0.5
+    return jnp.abs(jnp.linalg.inv(mat) @ eigenvector_matrix) > 0.5
 
 
 def finite_shots(
-- 
2.43.0


From 30f8bcb9c5a3bd1b7e03d4b1292eac5c4572d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 16/30] fix: the order of vparams and param_names changed from
 one process to the next

---
 horqrux/circuit.py            |  6 +++---
 horqrux/composite/sequence.py | 10 ++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index e5d7dba..36e0394 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -32,13 +32,13 @@ class QuantumCircuit(OpSequence):
         self.fparams = fparams
 
     @property
-    def vparams(self) -> set[str]:
-        """List of variational parameters of the circuit.
+    def vparams(self) -> list[str]:
+        """List of variational parameters of the circuit, in order of first use.
 
         Returns:
             list[str]: Names of variational parameters.
         """
-        return set([name for name in self.param_names if name not in self.fparams])
+        return [name for name in self.param_names if name not in self.fparams]
 
     @property
     def n_vparams(self) -> int:
diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index 561e384..e920285 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -74,16 +74,18 @@ class OpSequence:
             yield from flatten(operation)
 
     @property
-    def param_names(self) -> set[str]:
-        """List of parameters of the circuit.
+    def param_names(self) -> list[str]:
+        """List of parameters of the circuit, in order of first use.
             Composed of variational and feature map parameters.
 
         Returns:
-            set[str]: Names of parameters.
+            list[str]: Names of parameters.
         """
         from horqrux.primitives import Parametric
 
-        return set([str(op.param) for op in list(iter(self)) if isinstance(op, Parametric)])  # type: ignore[type-var]
+        names = [str(op.param) for op in list(iter(self)) if isinstance(op, Parametric)]  # type: ignore[type-var]
+        # note: the order of a set of names would change from one process to the next
+        return list(dict.fromkeys(names))
 
     @property
     def n_vparams(self) -> int:
-- 
2.43.0


From 953ec48461154ac9b532aa988026b0e974740002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 17/30] fix: param_names listed fixed angles as parameters

---
 horqrux/composite/sequence.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index e920285..7e57483 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -81,9 +81,7 @@ class OpSequence:
         Returns:
             list[str]: Names of parameters.
         """
-        from horqrux.primitives import Parametric
-
-        names = [str(op.param) for op in list(iter(self)) if isinstance(op, Parametric)]  # type: ignore[type-var]
+        names = [op.param for op in list(iter(self)) if op.is_parametric]  # type: ignore[type-var]
         # note: the order of a set of names would change from one process to the next
         return list(dict.fromkeys(names))
 
-- 
2.43.0


From 1ab0a76f55dfb1500769c7cf6c237a3c42ecd529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 18/30] fix: controlled gates as observables of density
 matrices failed inside jit and GPSR gradients

---
 horqrux/utils/operator_utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 0cc43bc..bc8c695 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -267,14 +267,13 @@ def prepare_controlled(
     full_dim = 2**ntotal_qubits
 
     # Compute the control mask using bit manipulation
-    control_mask = jnp.sum(
-        jnp.array(
-            [1 << (ntotal_qubits - control_qubit - 1) for control_qubit in control_ind_support]
-        )
+    control_mask = sum(
+        1 << (ntotal_qubits - control_qubit - 1) for control_qubit in control_ind_support
     )
 
     # Create indices for the controlled subspace
-    indices = jnp.arange(full_dim)
+    # note: these are static, and boolean indexing is not possible on traced arrays
+    indices = np.arange(full_dim)
     controlled_indices = indices[(indices & control_mask) == control_mask]
     return full_dim, controlled_indices
 
-- 
2.43.0


From 1d548eeee74284c528c36c4f1aadd41ff48d3114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 19/30] fix: overlap returned the real part of the squared
 amplitude, and failed for sparse states

---
 horqrux/utils/operator_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index bc8c695..1112221 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -448,7 +448,10 @@ def inner(state: Array, projection: Array) -> Array:
 
 
 def overlap(state: Array, projection: Array) -> Array:
-    return jnp.power(inner(state, projection), 2).real
+    amplitude = inner(state, projection)
+    if isinstance(amplitude, BCOO):
+        amplitude = amplitude.todense()
+    return jnp.power(jnp.abs(amplitude), 2)
 
 
 def uniform_state(n_qubits: int, sparse: bool = False) -> ArrayLike:
-- 
2.43.0


From f5ba72a6146cd2bffd4af7ae8ca6b32760bb7b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 20/30] fix: n_qubits of gates counted missing controls and not
 all targets and controls

---
 horqrux/primitives/primitive.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 0e8fa6a..b4bf3fd 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -132,10 +132,7 @@ class Primitive:
 
     @property
     def n_qubits(self) -> int:
-        n_qubits = len(self.target)
-        if self.control[0] is not None:
-            n_qubits += len(self.control)
-        return n_qubits
+        return len(self.qubit_support)
 
     @property
     def qubit_support(self) -> tuple:
-- 
2.43.0


From bc3649e80a7d28ba772775eaf2d0564d9004b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 21/30] fix: matrices of gates with unordered targets had their
 rows and columns in the wrong order

---
 horqrux/primitives/primitive.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index b4bf3fd..14b3002 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -17,8 +17,10 @@ from horqrux.utils.operator_utils import (
     _dagger,
     controlled,
     expand_operator,
+    hilbert_reshape,
     is_controlled,
     none_like,
+    permute_basis,
     zero_state,
 )
 
@@ -119,6 +121,12 @@ class Primitive:
             Array: Unitary representation taking into account the qubit support.
         """
         base_unitary = self._unitary(values)
+        targets = self.target[0]
+        if len(targets) > 1:
+            # the matrix is defined on the targets as given, the support is ordered
+            shape = base_unitary.shape
+            base_unitary = permute_basis(hilbert_reshape(base_unitary), targets, True)
+            base_unitary = base_unitary.reshape(shape)
         if is_controlled(self.control):
             base_unitary = controlled(base_unitary, self.target, self.control)
         if full_support is None:
-- 
2.43.0


From 2a8d16c61513854cf83a6639a0066a5dc6a2f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 22/30] fix: control qubits given as numpy integers were
 ignored

---
 horqrux/utils/operator_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 1112221..ce98d04 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -463,7 +463,7 @@ def uniform_state(n_qubits: int, sparse: bool = False) -> ArrayLike:
 
 
 def is_controlled(qubit_support: Union[tuple[Union[int, None], ...], int, None]) -> bool:
-    if isinstance(qubit_support, int):
+    if isinstance(qubit_support, (int, np.integer)):
         return True
     elif isinstance(qubit_support, tuple):
         return any(is_controlled(q) for q in qubit_support)
-- 
2.43.0


From 54436049e4c85dd72afcc971170fc54dd4e6eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 23/30] fix: sparse product states could not be used in
 compiled functions

---
 horqrux/utils/operator_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index ce98d04..6795dea 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -391,7 +391,8 @@ def product_state(bitstring: str, sparse: bool = False) -> Array:
     bitstr_ind = tuple(map(int, bitstring))
     if sparse:
         data = jnp.array([1.0], dtype=default_dtype)
-        indices = jnp.array([bitstr_ind])
+        # note: same type of indices as in the sparse operators
+        indices = jnp.array([bitstr_ind], dtype=jnp.int32)
         space = BCOO((data, indices), shape=shape)
     else:
         space = jnp.zeros(shape, dtype=default_dtype)
-- 
2.43.0


From e512a89211682b39e39e31f6a0aedc63db0f26fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 24/30] fix: sparse phase gates could not be used in compiled
 functions

---
 horqrux/primitives/parametric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index d287cfb..77b2a9a 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -212,7 +212,8 @@ class _PHASE(Parametric):
         u = jnp.eye(2, 2, dtype=default_dtype)
         u = u.at[(1, 1)].set(jnp.exp(1.0j * self.parse_values(values)))
         if self.sparse:
-            u = BCOO.fromdense(u)
+            # note: without the number of elements, it could not be traced
+            u = BCOO.fromdense(u, nse=2)
         return u
 
     def _base_eigenvals_generator(self) -> Array:
@@ -224,7 +225,7 @@ class _PHASE(Parametric):
         jac = jnp.zeros((2, 2), dtype=default_dtype)
         jac = jac.at[(1, 1)].set(1j * jnp.exp(1.0j * self.parse_values(values)))
         if self.sparse:
-            jac = BCOO.fromdense(jac)
+            jac = BCOO.fromdense(jac, nse=1)
         return jac
 
     @property
-- 
2.43.0


From 38209b75bd0d2ea03f438d478a5a2de6c6afdd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 25/30] fix: a circuit shared its list of feature parameters
 with its caller, and the default one with all circuits

---
 horqrux/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index 36e0394..de1c19a 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -29,7 +29,7 @@ class QuantumCircuit(OpSequence):
     ):
         super().__init__(list(operations))  # type:ignore[arg-type]
         self.n_qubits = n_qubits
-        self.fparams = fparams
+        self.fparams = list(fparams)
 
     @property
     def vparams(self) -> list[str]:
-- 
2.43.0


From 78b6ed87fcf013b7e8b83e0c8b5be7bcd636391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:12 +0000
Subject: [PATCH 26/30] fix: adjoint mode ignored the requested shots and
 returned exact values

---
 horqrux/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/horqrux/api.py b/horqrux/api.py
index b905d78..d8c466b 100644
--- a/horqrux/api.py
+++ b/horqrux/api.py
@@ -136,6 +136,8 @@ def expectation(
     elif diff_mode == DiffMode.ADJOINT:
         if isinstance(state, DensityMatrix):
             raise TypeError("Adjoint does not support density matrices.")
+        if n_shots != 0:
+            raise ValueError("Adjoint does not support shots.")
 
         return adjoint_expectation(state, circuit, observables, values)
 
-- 
2.43.0


From fdedcdf145dbe9dab7e73a881227da4d0674350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:12 +0000
Subject: [PATCH 27/30] fix: an empty sequence of gates raised a TypeError when
 applied

---
 horqrux/apply.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index f7e61c9..b41ee5a 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -377,8 +377,8 @@ def prepare_sequence_reduce(
         if group_gates:
             gate = group_by_index(gate)
         operator = tuple(getattr(g, op_type)(values) for g in gate)
-        target = reduce(add, [g.target for g in gate])
-        control = reduce(add, [g.control for g in gate])
+        target = reduce(add, [g.target for g in gate], ())
+        control = reduce(add, [g.control for g in gate], ())
         noise = [g.noise for g in gate]
         # merge when no noise is present
         if (noise == [None] * len(noise)) and merge_ops:
-- 
2.43.0


From 13f053eddd74e8b16d630e7d2f519304b4b2eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:12 +0000
Subject: [PATCH 28/30] fix: noise accepted NaN as a probability

---
 horqrux/noise/utils_noise.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/horqrux/noise/utils_noise.py b/horqrux/noise/utils_noise.py
index 7fd2631..cc15675 100644
--- a/horqrux/noise/utils_noise.py
+++ b/horqrux/noise/utils_noise.py
@@ -24,7 +24,7 @@ def BitFlip(error_probability: float) -> tuple[Array, ...]:
     Returns:
         tuple[Array, ...]: Kraus operators for this protocol.
     """
-    if (error_probability > 1.0) or (error_probability < 0.0):
+    if not (0.0 <= error_probability <= 1.0):
         raise ValueError(f"The 'error_probability' value is incorrect. Got {error_probability}.")
     K0: Array = jnp.sqrt(1.0 - error_probability) * OPERATIONS_DICT["I"]
     K1: Array = jnp.sqrt(error_probability) * OPERATIONS_DICT["X"]
@@ -51,7 +51,7 @@ def PhaseFlip(error_probability: float) -> tuple[Array, ...]:
         tuple[Array, ...]: Kraus operators for this protocol.
     """
 
-    if (error_probability > 1.0) or (error_probability < 0.0):
+    if not (0.0 <= error_probability <= 1.0):
         raise ValueError("The error_probability value is not a correct probability")
     K0: Array = jnp.sqrt(1.0 - error_probability) * OPERATIONS_DICT["I"]
     K1: Array = jnp.sqrt(error_probability) * OPERATIONS_DICT["Z"]
@@ -81,7 +81,7 @@ def Depolarizing(error_probability: float) -> tuple[Array, ...]:
         tuple[Array, ...]: Kraus operators for this protocol.
     """
 
-    if (error_probability > 1.0) or (error_probability < 0.0):
+    if not (0.0 <= error_probability <= 1.0):
         raise ValueError(f"The 'error_probability' value is incorrect. Got {error_probability}.")
     K0: Array = jnp.sqrt(1.0 - error_probability) * OPERATIONS_DICT["I"]
     K1: Array = jnp.sqrt(error_probability / 3.0) * OPERATIONS_DICT["X"]
@@ -117,7 +117,7 @@ def PauliChannel(error_probability: tuple[float, ...]) -> tuple[Array, ...]:
     sum_prob = sum(error_probability)
     if sum_prob > 1.0:
         raise ValueError("The sum of probabilities can't be greater than 1.0")
-    if any([probability > 1.0 or probability < 0.0 for probability in error_probability]):
+    if any([not (0.0 <= probability <= 1.0) for probability in error_probability]):
         raise ValueError(f"The 'error_probability' values are incorrect. Got {error_probability}.")
     px, py, pz = (
         error_probability[0],
@@ -159,7 +159,7 @@ def AmplitudeDamping(error_probability: float) -> tuple[Array, ...]:
         tuple[Array, ...]: Kraus operators for this protocol.
     """
 
-    if (error_probability > 1.0) or (error_probability < 0.0):
+    if not (0.0 <= error_probability <= 1.0):
         raise ValueError(f"The 'error_probability' value is incorrect. Got {error_probability}.")
     K0: Array = jnp.array([[1, 0], [0, jnp.sqrt(1 - error_probability)]], dtype=jnp.complex128)
     K1: Array = jnp.array([[0, jnp.sqrt(error_probability)], [0, 0]], dtype=jnp.complex128)
@@ -193,7 +193,7 @@ def PhaseDamping(error_probability: float) -> tuple[Array, ...]:
         tuple[Array, ...]: Kraus operators for this protocol.
     """
 
-    if (error_probability > 1.0) or (error_probability < 0.0):
+    if not (0.0 <= error_probability <= 1.0):
         raise ValueError(f"The 'error_probability' value is incorrect. Got {error_probability}.")
     K0: Array = jnp.array([[1, 0], [0, jnp.sqrt(1 - error_probability)]], dtype=jnp.complex128)
     K1: Array = jnp.array([[0, 0], [0, jnp.sqrt(error_probability)]], dtype=jnp.complex128)
@@ -234,11 +234,11 @@ def GeneralizedAmplitudeDamping(error_probability: tuple[float, ...]) -> tuple[A
 
     probability = error_probability[0]
     rate = error_probability[1]
-    if (probability > 1.0) or (probability < 0.0):
+    if not (0.0 <= probability <= 1.0):
         raise ValueError(
             f"The first value of 'error_probability' value is incorrect. Got {probability}."
         )
-    if (rate > 1.0) or (rate < 0.0):
+    if not (0.0 <= rate <= 1.0):
         raise ValueError(f"The second value of 'error_probability' value is incorrect. Got {rate}.")
 
     K0: Array = jnp.sqrt(probability) * jnp.array(
-- 
2.43.0


From 781c4857fb715f8f0aa008f6eea122013d9c6297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:12 +0000
Subject: [PATCH 29/30] fix: observables outside of a density matrix gave a
 number instead of an error

---
 horqrux/differentiation/ad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/horqrux/differentiation/ad.py b/horqrux/differentiation/ad.py
index 608bbde..47f42cd 100644
--- a/horqrux/differentiation/ad.py
+++ b/horqrux/differentiation/ad.py
@@ -62,6 +62,8 @@ def _(
     values: dict[str, float],
 ) -> Array:
     n_qubits = num_qubits(state)
+    if max(observable.qubit_support) >= n_qubits:
+        raise ValueError("The observable acts on qubits which the density matrix does not have.")
     mat_obs = observable.tensor(values)
     d = 2**n_qubits
     prod = apply_operator(state.array, mat_obs, observable.qubit_support, (None,)).reshape((d, d))
-- 
2.43.0


From 62919c1315cca34a0edeb03d62cb060ab8889ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:30 +0000
Subject: [PATCH 30/30] fix: probabilities of density matrices with one axis
 per qubit were a slice of the matrix

---
 horqrux/utils/operator_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 6795dea..0bf8bd0 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -533,6 +533,8 @@ def _(state: Array) -> Array:
 
 @probabilities.register
 def _(state: DensityMatrix) -> Array:
+    d = int(np.sqrt(state.array.size))
+    state = DensityMatrix(state.array.reshape((d, d)))
     return jnp.diagonal(state.array).real
 
 
-- 
2.43.0

