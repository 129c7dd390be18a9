From 362732d4e7b479b3fc071459095275deb145afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 01/56] fix: identity gates no longer drop the rest of the
 circuit during J-CZ lowering

---
 graphix/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 046500b..c17d796 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -940,7 +940,7 @@ def instructions_to_jcz(instrs: Iterable[InstructionType]) -> Iterator[instructi
             case InstructionKind.J | InstructionKind.CZ | InstructionKind.M:
                 yield instr
             case InstructionKind.I:
-                return
+                pass
             case InstructionKind.H:
                 yield instruction.J(instr.target, 0)
             case InstructionKind.S:
-- 
2.43.0


From b00416b1f093c9bc2380f77318ac512e45f1a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 02/56] fix: transpile circuits that measure a qubit after
 swapping it

---
 graphix/transpiler.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index c17d796..fc8316a 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1009,13 +1009,10 @@ class TranspileSwapsResult:
 
     def extract_output_node_indices(self) -> tuple[int, ...]:
         """Return for each output node, sorted in the order of the original circuit, the index of the corresponding output node in the order of the swapped circuit."""
-        reduced_index = {}
-        reduced_counter = 0
-        for index, output in enumerate(self.outputs):
-            if output.kind == OutputKind.Qubit:
-                reduced_index[index] = reduced_counter
-                reduced_counter += 1
-        return tuple(reduced_index[index] for index in self.extract_outputs(OutputKind.Qubit))
+        indices = self.extract_outputs(OutputKind.Qubit)
+        # The output nodes of the swapped circuit are sorted by qubit index *in the swapped circuit*.
+        reduced_index = {index: reduced for reduced, index in enumerate(sorted(indices))}
+        return tuple(reduced_index[index] for index in indices)
 
     def swap_output_nodes(self, output_nodes: Sequence[Node]) -> tuple[Node, ...]:
         """Reorder the output nodes of a pattern obtained from a swapped circuit to restore the qubit ordering of the original circuit."""
-- 
2.43.0


From 878f89a0c4f2dd6aa0005436ffc510f11735e4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 03/56] fix: keep classical outputs in gate order when
 transpiling swaps

---
 graphix/transpiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index fc8316a..4675898 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -514,8 +514,8 @@ class Circuit(InplaceParameterizable):
         swap = _transpile_swaps(self, copy=True)
         result = swap.circuit.transpile_to_causalflow().to_pattern()
         result.pattern.reorder_output_nodes(swap.swap_output_nodes(result.pattern.output_nodes))
-        classical_outputs = swap.swap_classical_outputs(result.classical_outputs)
-        return TranspiledPattern(result.pattern, classical_outputs)
+        # Swap elimination does not change the order of the measurement gates.
+        return TranspiledPattern(result.pattern, result.classical_outputs)
 
     @overload
     def simulate(
-- 
2.43.0


From 9c3177175cb945001fe03ae7a53a9bec20b2b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 04/56] fix: accept the empty measurement order for corrections
 without measured nodes

---
 graphix/flow/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 1cea8c4..0365225 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -392,6 +392,9 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
         shift = 1 if self.og.output_nodes else 0
         measured_layers = list(reversed(self.partial_order_layers[shift:]))
 
+        if not measured_layers:
+            return True
+
         i = 0
         n_measured_layers = len(measured_layers)
         layer = measured_layers[0]
-- 
2.43.0


From 23bdc21e3956bab68a6dd159e695a45774e202aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 05/56] fix: parallelize patterns that have no output node

---
 graphix/pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 6597aab..ad69cbe 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1159,7 +1159,9 @@ class Pattern(InplaceParameterizable):
             optimal measurement order for parallel computing
         """
         partial_order_layers = self.partial_order_layers()
-        return list(itertools.chain(*reversed(partial_order_layers[1:])))
+        # The first layer contains the output nodes if there are any.
+        shift = 1 if self.__output_nodes else 0
+        return list(itertools.chain(*reversed(partial_order_layers[shift:])))
 
     def sort_measurement_commands(self, meas_order: list[int]) -> list[command.M]:
         """Convert measurement order to sequence of measurement commands.
-- 
2.43.0


From df24d00d1cfc9b32d800626fb58b9084ce1e0a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 06/56] fix: minimize the space of patterns with nodes not
 prepared in the plus state

---
 graphix/space_minimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/space_minimization.py b/graphix/space_minimization.py
index 35e7bdd..ea6e38e 100644
--- a/graphix/space_minimization.py
+++ b/graphix/space_minimization.py
@@ -193,7 +193,8 @@ class SpaceMinimizationHeuristics:
         """
         try:
             cf = pattern.to_xzcorrections().downcast_bloch().to_causalflow()
-        except (TypeError, FlowError):
+        except (TypeError, ValueError, FlowError):
+            # ``ValueError`` is raised if some nodes are not prepared in the |+⟩ state.
             return None
         else:
             meas_order = tuple(chain(*reversed(cf.partial_order_layers[1:])))
-- 
2.43.0


From 6f9ba650890952423567fcff610f2257e844667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 07/56] fix: keep nodes not prepared in the plus state when
 removing Pauli measurements

---
 graphix/remove_pauli_measurements.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index 71decac..b706861 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -36,6 +36,7 @@ from graphix.command import Command
 from graphix.fundamentals import Axis, Sign
 from graphix.measurements import PauliMeasurement
 from graphix.optimization import StandardizedPattern
+from graphix.states import BasicStates
 
 if TYPE_CHECKING:
     from collections.abc import Iterable, Mapping
@@ -239,7 +240,7 @@ class _RemovePauliMeasurements:
     Nodes are given with the indexing of the original pattern: use ``node_map`` to retrieve the index in the graph."""
 
     input_node_set: set[Node]
-    """Set of input nodes: inputs nodes are never pivoted, therefore their indexing is preserved."""
+    """Set of input nodes and nodes not prepared in the |+⟩ state: these nodes are never pivoted, therefore their indexing is preserved."""
 
     output_node_set: set[Node]
     """Set of output nodes, using the new indexing."""
@@ -266,7 +267,10 @@ class _RemovePauliMeasurements:
             self.node_specs[node].clifford = clifford
         self.measurements = cut.measurements
         self.pauli_measurements = {axis: set() for axis in Axis}
-        self.input_node_set = set(cut.original_pattern.input_nodes)
+        # Like inputs, the nodes that are not prepared in the |+⟩ state can neither be removed nor pivoted.
+        self.input_node_set = set(cut.original_pattern.input_nodes).union(
+            cmd_n.node for cmd_n in cut.original_pattern.n_list if cmd_n.state != BasicStates.PLUS
+        )
         self.output_node_set = set(cut.original_pattern.output_nodes)
         for cmd_m in self.cut.pauli_measurements:
             if not isinstance(cmd_m.measurement, PauliMeasurement):  # pragma: no cover
-- 
2.43.0


From eade87e4f1f08c3fa3093d9acb653bc164d2e65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 08/56] fix: keep isolated nodes with a determined non-zero
 outcome when removing Pauli measurements

---
 graphix/remove_pauli_measurements.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index b706861..9ee57fb 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -491,17 +491,28 @@ class _RemovePauliMeasurements:
     def remove_isolated_internal_nodes(self, *, stacklevel: int = 1) -> None:
         """Remove isolated internal nodes.
 
+        A node is kept if its outcome is not always 0 but is
+        determined by the other outcomes: removing it, i.e. treating
+        the outcome as 0, would not preserve the semantics.
+
         Parameters
         ----------
         stacklevel : int, optional
             Stack level to use for warnings. Defaults to 1, meaning that warnings
             are reported at this function's call site.
         """
+        measurements = {cmd_m.node: cmd_m.measurement for cmd_m in self.measurements}
         # Construct the list first since the graph should not be
         # modified while enumerating isolated nodes.
         for node in list(nx.isolates(self.graph)):
             if node not in self.input_node_set and node not in self.output_node_set:
-                if node not in self.pauli_measurements:
+                spec = self.node_specs[node]
+                if spec.pauli_measurement is not None:
+                    if spec.pauli_measurement.sign == Sign.MINUS:
+                        continue
+                elif measurements[spec.src].clifford(spec.clifford).to_pauli_or_none() is not None:
+                    continue
+                else:
                     warn("Non-Pauli measurement on an isolated node was removed.", stacklevel=stacklevel + 1)
                 self._remove_node(node)
 
-- 
2.43.0


From b42fa625549b731ccb8f26740e2e5c5eb65e0195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 09/56] fix: remove identity local Clifford commands without
 losing their node

---
 graphix/optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphix/optimization.py b/graphix/optimization.py
index a571218..308bfc2 100644
--- a/graphix/optimization.py
+++ b/graphix/optimization.py
@@ -641,8 +641,10 @@ def remove_local_clifford_commands(pattern: Pattern) -> Pattern:
                 # - The set of input nodes is {0}.
                 # - The output node is the highest-indexed node.
                 new_pattern.extend(clifford_pattern.reindex(lambda node: cmd_node if node == 0 else node + max_node))  # noqa: B023
-                max_node += output_node
-                mapping[cmd.node] = max_node
+                # - The output node is the input node for the identity.
+                if output_node != 0:
+                    max_node += output_node
+                    mapping[cmd.node] = max_node
             case _:
                 new_cmd = cmd.reindex(reindex)
                 new_pattern.add(new_cmd)
-- 
2.43.0


From b3d0a9dcd8e5a924ff9d9428ef2c93f801b6871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 10/56] fix: pass the random-number generator to the default
 branch selector of FixedBranchSelector

---
 graphix/branch_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/branch_selector.py b/graphix/branch_selector.py
index a8b6a75..a871395 100644
--- a/graphix/branch_selector.py
+++ b/graphix/branch_selector.py
@@ -131,7 +131,7 @@ class FixedBranchSelector(BranchSelector, Generic[_T]):
         if result is None:
             if self.default is None:
                 raise ValueError(f"Unexpected measurement of qubit {qubit}.")
-            return self.default.measure(qubit, f_expectation0)
+            return self.default.measure(qubit, f_expectation0, rng, stacklevel=stacklevel + 1)
         return result
 
 
-- 
2.43.0


From 8a5c09bd94ca87ea0832dafcf5c35a0d68bdeb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 11/56] fix: never select an outcome of probability zero

---
 graphix/branch_selector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/branch_selector.py b/graphix/branch_selector.py
index a871395..289003a 100644
--- a/graphix/branch_selector.py
+++ b/graphix/branch_selector.py
@@ -86,7 +86,9 @@ class RandomBranchSelector(BranchSelector):
         rng = ensure_rng(rng, stacklevel=stacklevel + 1)
         if self.pr_calc:
             prob_0 = f_expectation0()
-            return outcome(rng.random() > prob_0)
+            # `rng.random()` is in [0, 1): the strict comparison would select
+            # outcome 0 with `prob_0 == 0` when 0 is drawn.
+            return outcome(rng.random() >= prob_0)
         result: Outcome = rng.choice([0, 1])
         return result
 
-- 
2.43.0


From e3c16bce79a9babdba0d4a12038e9df5c6bffe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 12/56] fix: compute outcome probabilities of isolated nodes in
 the measured basis with the tensor network backend

---
 graphix/sim/tensornet.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index c9f4b3b..33a6dcc 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -759,9 +759,14 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
         measurement : Measurement
             measure plane and angle
         """
+        bloch = measurement.to_bloch()
+        if isinstance(bloch.angle, Expression):
+            raise TypeError("Parameterized pattern unsupported.")
+        vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
+        vecs = (vec, Ops.from_axis(bloch.plane.orth) @ vec)
         if node in self._isolated_nodes:
             vector: npt.NDArray[np.complex128] = self.state.open_tensor(node)
-            probs = (np.abs(vector) ** 2).astype(np.float64)
+            probs = np.array([np.abs(np.vdot(v, vector)) ** 2 for v in vecs], dtype=np.float64)
             probs /= np.sum(probs)
             result: Outcome = self.branch_selector.measure(node, lambda: probs[0], rng=rng, stacklevel=stacklevel + 1)
             self.results[node] = result
@@ -770,13 +775,7 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
             result = self.branch_selector.measure(node, lambda: 0.5, rng=rng, stacklevel=stacklevel + 1)
             self.results[node] = result
             buffer = 2**0.5
-        bloch = measurement.to_bloch()
-        if isinstance(bloch.angle, Expression):
-            raise TypeError("Parameterized pattern unsupported.")
-        vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
-        if result:
-            vec = Ops.from_axis(bloch.plane.orth) @ vec
-        proj_vec = vec * buffer
+        proj_vec = vecs[result] * buffer
         self.state.measure_single(node, basis=proj_vec, rng=rng, stacklevel=stacklevel + 1)
         return result
 
-- 
2.43.0


From 76ade8b4797972b915375fe4b6cee5a95947d11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 13/56] fix: tolerate rounding errors in the imaginary part of
 the fidelity of a density matrix

---
 graphix/sim/density_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index ad42a0e..3e200d0 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -406,7 +406,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         result = vdot(statevec.psi, matmul(self.rho, statevec.psi))
         if isinstance(result, Expression):
             return result
-        assert math.isclose(result.imag, 0)
+        assert math.isclose(result.imag, 0, abs_tol=1e-10)
         return result.real
 
     def flatten(self) -> Matrix:
-- 
2.43.0


From f48e14bea07758ad5b34c6ba997eb4f11bf76eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 14/56] fix: consult the branch selector once per measurement
 with the tensor network backend

---
 graphix/sim/tensornet.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 33a6dcc..18d6d9b 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -228,11 +228,14 @@ class MBQCTensorNet(TensorNetwork):
             measurement result.
         """
         if bypass_probability_calculation:
-            result = (
-                outcome
-                if outcome is not None
-                else self.__branch_selector.measure(index, lambda: 0.5, rng=rng, stacklevel=stacklevel + 1)
-            )
+            result: Outcome
+            if isinstance(basis, np.ndarray):
+                # The caller has already chosen the state to project onto.
+                result = 0
+            elif outcome is not None:
+                result = outcome
+            else:
+                result = self.__branch_selector.measure(index, lambda: 0.5, rng=rng, stacklevel=stacklevel + 1)
             # Basis state to be projected
             if isinstance(basis, np.ndarray):
                 if outcome is not None:
-- 
2.43.0


From 4f1ec0f5c5f0320db9b307737b9edd96e1e2ba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 15/56] fix: use the given probabilities in the Pauli channel

---
 graphix/channels.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/graphix/channels.py b/graphix/channels.py
index d807814..adbab8d 100644
--- a/graphix/channels.py
+++ b/graphix/channels.py
@@ -209,13 +209,14 @@ def pauli_channel(px: float, py: float, pz: float) -> KrausChannel:
     """
     if px + py + pz > 1:
         raise ValueError("The sum of probabilities must not exceed 1.")
-    p_i = 1 - px - py - pz
+    # Rounding errors may make the remaining probability slightly negative.
+    p_i = max(0.0, 1 - px - py - pz)
     return KrausChannel(
         [
-            KrausData(np.sqrt(1 - p_i), Ops.I),
-            KrausData(np.sqrt(px / 3.0), Ops.X),
-            KrausData(np.sqrt(py / 3.0), Ops.Y),
-            KrausData(np.sqrt(pz / 3.0), Ops.Z),
+            KrausData(np.sqrt(p_i), Ops.I),
+            KrausData(np.sqrt(px), Ops.X),
+            KrausData(np.sqrt(py), Ops.Y),
+            KrausData(np.sqrt(pz), Ops.Z),
         ]
     )
 
-- 
2.43.0


From 10d5d8b84353fdb0001742eb74cb614c1ee0fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 16/56] fix: do not extend the list of input noise returned by
 the noise model

---
 graphix/simulator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphix/simulator.py b/graphix/simulator.py
index 93c142b..989eba5 100644
--- a/graphix/simulator.py
+++ b/graphix/simulator.py
@@ -437,8 +437,11 @@ class PatternSimulator(Generic[_StateT_co]):
         if self.noise_model is None:
             pattern: Iterable[CommandOrNoise] = self.pattern
         else:
-            pattern = self.noise_model.input_nodes(self.pattern.input_nodes, rng=rng) if input_state is not None else []
-            pattern.extend(self.noise_model.transpile(self.pattern, rng=rng))
+            input_noise = (
+                self.noise_model.input_nodes(self.pattern.input_nodes, rng=rng) if input_state is not None else []
+            )
+            # The lists returned by the noise model are not modified: the model may keep a reference to them.
+            pattern = [*input_noise, *self.noise_model.transpile(self.pattern, rng=rng)]
 
         # We check runnability first to provide clearer error messages and
         # to catch these errors before starting the simulation.
-- 
2.43.0


From 4f5299f7ce3dea525b27df0f36ac3feeb952b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 17/56] fix: forward the random-number generator to the input
 noise of composed models

---
 graphix/noise_models/noise_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/noise_models/noise_model.py b/graphix/noise_models/noise_model.py
index 94b2237..b350965 100644
--- a/graphix/noise_models/noise_model.py
+++ b/graphix/noise_models/noise_model.py
@@ -150,7 +150,7 @@ class ComposeNoiseModel(NoiseModel):
         self, nodes: Iterable[int], rng: Generator | None = None, *, stacklevel: int = 1
     ) -> list[CommandOrNoise]:
         """Return the noise to apply to input nodes."""
-        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, stacklevel=stacklevel + 1)]
+        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, rng=rng, stacklevel=stacklevel + 1)]
 
     @override
     def command(
-- 
2.43.0


From c0297716e7379853060f32a8d62608b9c272efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 18/56] fix: do not modify commands shared with other patterns
 when commuting corrections and signals

---
 graphix/pattern.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index ad69cbe..ecbe698 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -806,7 +806,7 @@ class Pattern(InplaceParameterizable):
         assert x.kind == CommandKind.X
         assert m.kind == CommandKind.M
         if x.node == m.node:
-            m.s_domain ^= x.domain
+            self.__seq[target + 1] = dataclasses.replace(m, s_domain=m.s_domain ^ x.domain)
             self.__seq.pop(target)  # del X
             return True
         self._commute_with_following(target)
@@ -826,7 +826,7 @@ class Pattern(InplaceParameterizable):
         assert z.kind == CommandKind.Z
         assert m.kind == CommandKind.M
         if z.node == m.node:
-            m.t_domain ^= z.domain
+            self.__seq[target + 1] = dataclasses.replace(m, t_domain=m.t_domain ^ z.domain)
             self.__seq.pop(target)  # del Z
             return True
         self._commute_with_following(target)
@@ -846,7 +846,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert x.kind == CommandKind.X
         if s.node in x.domain:
-            x.domain ^= s.domain
+            self.__seq[target + 1] = dataclasses.replace(x, domain=x.domain ^ s.domain)
         self._commute_with_following(target)
 
     def _commute_zs(self, target: int) -> None:
@@ -863,7 +863,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert z.kind == CommandKind.Z
         if s.node in z.domain:
-            z.domain ^= s.domain
+            self.__seq[target + 1] = dataclasses.replace(z, domain=z.domain ^ s.domain)
         self._commute_with_following(target)
 
     def _commute_ms(self, target: int) -> None:
@@ -879,10 +879,9 @@ class Pattern(InplaceParameterizable):
         m = self.__seq[target + 1]
         assert s.kind == CommandKind.S
         assert m.kind == CommandKind.M
-        if s.node in m.s_domain:
-            m.s_domain ^= s.domain
-        if s.node in m.t_domain:
-            m.t_domain ^= s.domain
+        s_domain = m.s_domain ^ s.domain if s.node in m.s_domain else m.s_domain
+        t_domain = m.t_domain ^ s.domain if s.node in m.t_domain else m.t_domain
+        self.__seq[target + 1] = dataclasses.replace(m, s_domain=s_domain, t_domain=t_domain)
         self._commute_with_following(target)
 
     def _commute_ss(self, target: int) -> None:
@@ -1017,12 +1016,15 @@ class Pattern(InplaceParameterizable):
             cmd = self.__seq[pos]
             if cmd.kind == CommandKind.M:
                 extracted_signal = extract_signal(cmd.measurement.to_bloch().plane, cmd.s_domain, cmd.t_domain)
-                if extracted_signal.signal:
-                    self.__seq.insert(pos + 1, command.S(node=cmd.node, domain=extracted_signal.signal))
-                    cmd.s_domain = extracted_signal.s_domain
-                    cmd.t_domain = extracted_signal.t_domain
+                # The sets and the command can be shared with other patterns.
+                signal = set(extracted_signal.signal)
+                if signal:
+                    self.__seq[pos] = dataclasses.replace(
+                        cmd, s_domain=extracted_signal.s_domain, t_domain=extracted_signal.t_domain
+                    )
+                    self.__seq.insert(pos + 1, command.S(node=cmd.node, domain=signal))
                     pos += 1
-                signal_dict[cmd.node] = extracted_signal.signal
+                signal_dict[cmd.node] = signal
             pos += 1
         return signal_dict
 
-- 
2.43.0


From 04eaaf9b302d45b0d6778076e456d867234c1729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 19/56] fix: accept the identity among the local Cliffords
 applied to a graph state

---
 graphix/graphsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 8e91292..a9bf016 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -132,6 +132,8 @@ class GraphState(Graph):
         for node, vop in vops.items():
             for lc in reversed(vop.hsz):
                 match lc:
+                    case Clifford.I:
+                        pass
                     case Clifford.Z:
                         self.z(node)
                     case Clifford.H:
-- 
2.43.0


From 516e9454ae6521cbfa1a137d94e0f757b4b992b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 20/56] fix: observe the chosen outcome when measuring an
 isolated node of a graph state in Z

---
 graphix/graphsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index a9bf016..d955f27 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -462,7 +462,8 @@ class GraphState(Graph):
         if choice:
             for i in self.neighbors(node):
                 self.flip_sign(i)
-        result = choice if not isolated else outcome(self.nodes[node]["sign"])
+        # The outcome is determined only if the node is isolated and hollow, without loop.
+        result = outcome(self.nodes[node]["sign"]) if isolated == 1 else choice
         self.remove_node(node)
         return result
 
-- 
2.43.0


From bb6735bef5498ea2f5e28d420d5e358fa634a664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 21/56] fix: apply S to a hollow graph-state node with loop
 with the right sign

---
 graphix/graphsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index d955f27..2c89dfb 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -250,6 +250,9 @@ class GraphState(Graph):
                 self.local_complement(node)
                 for i in self.neighbors(node):
                     self.advance(i)
+                if not self.nodes[node]["sign"]:
+                    for i in self.neighbors(node):
+                        self.flip_sign(i)
             else:
                 self.local_complement(node)
                 for i in self.neighbors(node):
-- 
2.43.0


From 80fef4b5d9ef497b0ad38f72b7e29bd9af34bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 22/56] fix: leave the circuit unchanged when a visitor raises
 and keep track of its measured qubits

---
 graphix/transpiler.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 4675898..2f89dd3 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -659,14 +659,15 @@ class Circuit(InplaceParameterizable):
         Self
             The rewritten circuit. Equal to ``self`` if ``copy`` is ``False``.
         """
-        if copy:
-            result = Circuit(self.width)
-            for instr in self.instruction:
-                result.instruction.append(instr.visit(visitor, copy=True))
-            return result
-        for instr in self.instruction:
-            instr.visit(visitor, copy=False)
-        return self
+        # Instructions are never visited in place: if the visitor raises an
+        # exception, the circuit remains unchanged.
+        instructions = [instr.visit(visitor, copy=True) for instr in self.instruction]
+        result = Circuit(self.width) if copy else self
+        result.instruction = instructions
+        result.active_qubits = set(range(self.width)).difference(
+            instr.target for instr in instructions if instr.kind == InstructionKind.M
+        )
+        return result
 
     def apply_angle(self, f: Callable[[ParameterizedAngle], ParameterizedAngle], *, copy: bool = False) -> Circuit:
         """Apply ``f`` to all angles that occur in the circuit.
-- 
2.43.0


From 57f20341cd4a68d726174363d32ca30a5a55e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 23/56] fix: leave the circuit consistent when transpiling
 swaps in place

---
 graphix/transpiler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 2f89dd3..10d063a 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1098,13 +1098,14 @@ def transpile_swaps(circuit: Circuit, *, copy: bool = False) -> TranspileSwapsRe
             visitor.outputs[u], visitor.outputs[v] = visitor.outputs[v], visitor.outputs[u]
         elif instr.kind == InstructionKind.M:
             old_target = instr.target
-            new_circuit.add(instr.visit(visitor, copy=copy))
+            new_circuit.add(instr.visit(visitor, copy=True))
             visitor.outputs[old_target] = OutputIndex(OutputKind.Bit, measurement_index)
             measurement_index += 1
         else:
-            new_circuit.add(instr.visit(visitor, copy=copy))
+            new_circuit.add(instr.visit(visitor, copy=True))
     if not copy:
         circuit.instruction = new_circuit.instruction
+        circuit.active_qubits = new_circuit.active_qubits
         new_circuit = circuit
     return TranspileSwapsResult(new_circuit, tuple(visitor.outputs))
 
-- 
2.43.0


From c7d02ebf13167c785dce68a391056ed39507b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 24/56] fix: check that the pattern is runnable before
 preparing the inputs of a simulation

---
 graphix/simulator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphix/simulator.py b/graphix/simulator.py
index 989eba5..26da4dc 100644
--- a/graphix/simulator.py
+++ b/graphix/simulator.py
@@ -413,6 +413,10 @@ class PatternSimulator(Generic[_StateT_co]):
             Stack level to use for warnings. Defaults to 1, meaning that warnings
             are reported at this function's call site.
         """
+        # We check runnability first to provide clearer error messages and
+        # to catch these errors before starting the simulation.
+        self.pattern.check_runnability()
+
         # Check whether the backend is properly initialized.  We
         # disable the check for TensorNetworkBackend because its
         # current behavior differs from other backends.
@@ -443,10 +447,6 @@ class PatternSimulator(Generic[_StateT_co]):
             # The lists returned by the noise model are not modified: the model may keep a reference to them.
             pattern = [*input_noise, *self.noise_model.transpile(self.pattern, rng=rng)]
 
-        # We check runnability first to provide clearer error messages and
-        # to catch these errors before starting the simulation.
-        self.pattern.check_runnability()
-
         logger.debug("Initial state: %s", self.backend.state)
 
         for cmd in pattern:
-- 
2.43.0


From f39fde4cc0f0c662ee7e6dd95e80f06d9f1f49e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 25/56] fix: leave the graph state unchanged when local
 Cliffords are applied to an unknown node

---
 graphix/graphsim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 2c89dfb..e5d2979 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -129,6 +129,10 @@ class GraphState(Graph):
         -------
         None
         """
+        # Unknown nodes are detected first, so that the graph state is unchanged on failure.
+        for node in vops:
+            if node not in self.nodes:
+                raise KeyError(node)
         for node, vop in vops.items():
             for lc in reversed(vop.hsz):
                 match lc:
-- 
2.43.0


From 390f6c4bf039cd0897c2c41b7a0cc3d756afd589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:19 +0000
Subject: [PATCH 26/56] fix: extend circuits with all the instructions or none

---
 graphix/transpiler.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 10d063a..9b12c10 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -174,9 +174,19 @@ class Circuit(InplaceParameterizable):
                 assert_never(instr.kind)
 
     def extend(self, instrs: Iterable[InstructionType]) -> None:
-        """Add instructions to the circuit."""
-        for instr in instrs:
-            self.add(instr)
+        """Add instructions to the circuit.
+
+        If an instruction is refused, none of them is added.
+        """
+        nb_instructions = len(self.instruction)
+        active_qubits = set(self.active_qubits)
+        try:
+            for instr in instrs:
+                self.add(instr)
+        except BaseException:
+            del self.instruction[nb_instructions:]
+            self.active_qubits = active_qubits
+            raise
 
     def __repr__(self) -> str:
         """Return a representation of the Circuit."""
-- 
2.43.0


From 3242fbb9fba190c07afa0d9b8fa6314180a2d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 27/56] fix: do not modify the density matrix when computing an
 expectation value

---
 graphix/sim/density_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 3e200d0..8157988 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -278,7 +278,8 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         if op.shape != (2, 2):
             raise ValueError("op must be 2x2 matrix.")
 
-        st1 = _copy.copy(self)
+        # `normalize` works in place: the density matrix has to be copied first.
+        st1 = _copy.deepcopy(self)
         st1.normalize()
 
         nqubit = self.nqubit
-- 
2.43.0


From d6187144236c463424b06d2653559206f14cdc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 28/56] fix: refuse outcomes of probability zero with the
 density matrix backend

---
 graphix/sim/density_matrix.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 8157988..370f3d9 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -365,6 +365,15 @@ class DensityMatrix(DenseState, InplaceParameterizable):
             rho_c = self.rho.astype(np.complex128, copy=False)
             rho_c /= np.trace(rho_c)
 
+    @override
+    def project_qubit(self, op: Matrix, qubit: int) -> None:
+        rho = self.rho
+        self.evolve_single(op, qubit)
+        if self.rho.dtype != np.object_ and math.isclose(abs(np.trace(self.rho)), 0, abs_tol=1e-10):
+            self.rho = rho
+            raise RuntimeError(f"Attempted to remove qubit {qubit} from 0-trace density matrix.")
+        self.remove_qubit(qubit)
+
     @override
     def remove_qubit(self, qubit: int) -> None:
         """Remove a qubit."""
-- 
2.43.0


From 315218ae52f620ae72facb50dc021d3367e680ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 29/56] fix: make copies of tensor networks independent and
 keep their output nodes

---
 graphix/sim/tensornet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 18d6d9b..f4a8e39 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -70,7 +70,7 @@ class MBQCTensorNet(TensorNetwork):
         if ts is None:
             ts = []
         super().__init__(ts=ts, virtual=virtual)
-        self._dangling = ts._dangling if isinstance(ts, MBQCTensorNet) else {}
+        self._dangling = dict(ts._dangling) if isinstance(ts, MBQCTensorNet) else {}
         self.default_output_nodes = None if default_output_nodes is None else list(default_output_nodes)
         # prepare the graph state if graph_nodes and graph_edges are given
         if graph_nodes is not None and graph_edges is not None:
@@ -541,7 +541,9 @@ class MBQCTensorNet(TensorNetwork):
         """
         if deep:
             return deepcopy(self)
-        return self.__class__(branch_selector=self.__branch_selector, ts=self)
+        return self.__class__(
+            branch_selector=self.__branch_selector, default_output_nodes=self.default_output_nodes, ts=self
+        )
 
 
 def _decompose_cz() -> list[npt.NDArray[np.complex128]]:
-- 
2.43.0


From 166724162b442b1dad9a6c0025f1db170a6e86d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 30/56] fix: do not standardize the pattern when querying
 connected nodes

---
 graphix/pattern.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index ecbe698..b7b9067 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1269,22 +1269,17 @@ class Pattern(InplaceParameterizable):
         node_list : list
             list of nodes that are entangled with specified node
         """
-        if not self.is_standard():
-            self.standardize()
+        pattern = self if self.is_standard() else optimization.standardize(self)
         if prepared is None:
             prepared = set()
         node_list = []
-        ind = self._find_op_to_be_moved(CommandKind.E)
-        if ind is not None:  # end -> 'node' is isolated
-            cmd = self.__seq[ind]
-            while cmd.kind == CommandKind.E:
+        for cmd in pattern:
+            if cmd.kind == CommandKind.E:
                 if cmd.nodes[0] == node:
                     if cmd.nodes[1] not in prepared:
                         node_list.append(cmd.nodes[1])
                 elif cmd.nodes[1] == node and cmd.nodes[0] not in prepared:
                     node_list.append(cmd.nodes[0])
-                ind += 1
-                cmd = self.__seq[ind]
         return node_list
 
     def correction_commands(self) -> list[command.X | command.Z]:
-- 
2.43.0


From 58ff0ddbcf919711431bd2c95dd28736766c75ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 31/56] fix: do not share the domains of commands between a
 pattern and its copies

---
 graphix/pattern.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index b7b9067..1e47e71 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1623,7 +1623,7 @@ class Pattern(InplaceParameterizable):
     def copy(self) -> Pattern:
         """Return a copy of the pattern."""
         result = self.__new__(self.__class__)
-        result.__seq = [copy.copy(cmd) for cmd in self.__seq]
+        result.__seq = [_copy_command(cmd) for cmd in self.__seq]
         result.__input_nodes = self.__input_nodes.copy()
         result.__output_nodes = self.__output_nodes.copy()
         result.__n_node = self.__n_node
@@ -2003,6 +2003,17 @@ class RunnabilityError(PatternError):
                 assert_never(self.reason)
 
 
+def _copy_command(cmd: CommandType) -> CommandType:
+    """Return a copy of the command that does not share its domains with the original command."""
+    match cmd.kind:
+        case CommandKind.M:
+            return dataclasses.replace(cmd, s_domain=set(cmd.s_domain), t_domain=set(cmd.t_domain))
+        case CommandKind.X | CommandKind.Z | CommandKind.S:
+            return dataclasses.replace(cmd, domain=set(cmd.domain))
+        case _:
+            return copy.copy(cmd)
+
+
 def assert_permutation(original: list[int], user: list[int]) -> None:
     """Check that the provided `user` node list is a permutation from `original`."""
     node_set = set(user)
-- 
2.43.0


From 235cf5d37d46f47d5f835cc56eb5e8a6d49704fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 32/56] fix: return a copy when removing local Cliffords from
 an empty pattern

---
 graphix/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/optimization.py b/graphix/optimization.py
index 308bfc2..2f80a8f 100644
--- a/graphix/optimization.py
+++ b/graphix/optimization.py
@@ -619,7 +619,7 @@ def remove_local_clifford_commands(pattern: Pattern) -> Pattern:
 
     nodes = pattern.nodes()
     if not nodes:
-        return pattern
+        return pattern.copy()
     max_node = max(nodes)
     new_pattern = Pattern(input_nodes=pattern.input_nodes)
     mapping: dict[Node, Node] = {}
-- 
2.43.0


From 001ef0f7428d8b3404277419d88d333818e2b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 33/56] fix: do not count the measured node in the sign of its
 extraction string

The Pauli string associated with a node measured along a negative Pauli axis is
the image of the operator on that node, so the sign of its own measurement must
not enter: an input measured along -X or -Y was given a Clifford map whose Z image
had the wrong sign, and the extracted circuit differed from the open graph.
---
 graphix/circ_ext/extraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/circ_ext/extraction.py b/graphix/circ_ext/extraction.py
index 5d5fa14..faef185 100644
--- a/graphix/circ_ext/extraction.py
+++ b/graphix/circ_ext/extraction.py
@@ -551,7 +551,8 @@ def extraction_ps_from_corrected_node(flow: PauliFlow[Measurement], node: Node)
     negative_sign ^= bool(len(inter_c_odd_set) // 2 % 2)
 
     # One phase flip per node in the graph state stabilizer that is absorbed from a Pauli measurement with angle π.
-    for n in c_set | odd_c_set:
+    # The corrected node itself is not absorbed: its operator is the one mapped to the output nodes.
+    for n in (c_set | odd_c_set) - {node}:
         meas = og.measurements.get(n, None)
         if isinstance(meas, PauliMeasurement):
             negative_sign ^= meas.sign == Sign.MINUS
-- 
2.43.0


From f9f700f852838b83992cc0ef26d629019eb8a41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 34/56] fix: keep the constant when the parameter cancels in a
 sum

The sum of two affine expressions with opposite coefficients was 0 whatever their
constant terms: `(x + 1) - x` was 0.
---
 graphix/parameter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphix/parameter.py b/graphix/parameter.py
index 891986f..3c58b72 100644
--- a/graphix/parameter.py
+++ b/graphix/parameter.py
@@ -201,9 +201,10 @@ class AffineExpression(Expression):
             if other.x != self.x:
                 raise PlaceholderOperationError
             a = self.a + other.a
+            b = self.b + other.b
             if a == 0:
-                return 0
-            return AffineExpression(a=a, x=self.x, b=self.b + other.b)
+                return b
+            return AffineExpression(a=a, x=self.x, b=b)
         return NotImplemented
 
     @override
-- 
2.43.0


From 91123a459b5092bec0de18957a95ca3c4e082b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 35/56] fix: report circuits with parametric J gates as
 parameterized

`Circuit.is_parameterized` did not look at the angles of J gates.
---
 graphix/transpiler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 9b12c10..5d3d091 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -711,7 +711,13 @@ class Circuit(InplaceParameterizable):
         """
         for instr in self.instruction:
             match instr.kind:
-                case InstructionKind.RZZ | InstructionKind.RX | InstructionKind.RY | InstructionKind.RZ:
+                case (
+                    InstructionKind.RZZ
+                    | InstructionKind.RX
+                    | InstructionKind.RY
+                    | InstructionKind.RZ
+                    | InstructionKind.J
+                ):
                     if not isinstance(instr.angle, SupportsFloat):
                         return True
         return False
-- 
2.43.0


From e3d5a0baba97ffab1523955d4d7d712811e5b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 36/56] fix: substitute parameters in density matrices whatever
 the first coefficient

`np.vectorize` inferred the type of the result from the first coefficient of the
matrix: substituting raised a TypeError or lost imaginary parts when that
coefficient was a real number and another one was complex or still symbolic.
---
 graphix/sim/density_matrix.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 370f3d9..f245c3c 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -32,7 +32,7 @@ from graphix.sim.statevec import Statevector, _check_permutation
 from graphix.states import BasicStates, State
 
 if TYPE_CHECKING:
-    from collections.abc import Mapping, Sequence
+    from collections.abc import Callable, Mapping, Sequence
     from typing import SupportsComplex, SupportsFloat
 
     from graphix.noise_models.noise_model import Noise
@@ -40,6 +40,17 @@ if TYPE_CHECKING:
     from graphix.sim.data import Data
 
 
+def _map_matrix(
+    f: Callable[[ExpressionOrSupportsComplex], ExpressionOrSupportsComplex],
+    matrix: Matrix,
+) -> Matrix:
+    """Apply ``f`` on every coefficient; the result is a numerical matrix if no expression is left."""
+    result = np.vectorize(f, otypes=[np.object_])(matrix)
+    if any(isinstance(value, Expression) for value in result.flat):
+        return result
+    return result.astype(np.complex128)
+
+
 class DensityMatrix(DenseState, InplaceParameterizable):
     """DensityMatrix object."""
 
@@ -478,7 +489,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameter(
         self, variable: Parameter, substitute: ExpressionOrSupportsFloat, *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameter(value, variable, substitute))(self.rho)
+        rho = _map_matrix(lambda value: with_parameter(value, variable, substitute), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
@@ -490,7 +501,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameters(
         self, assignment: Mapping[Parameter, ExpressionOrSupportsFloat], *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameters(value, assignment))(self.rho)
+        rho = _map_matrix(lambda value: with_parameters(value, assignment), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
-- 
2.43.0


From 70b85225e59af5757adcd31c28eb41d30ec60cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 37/56] fix: keep isolated nodes measured with a symbolic angle
 when removing Pauli measurements

Like a node whose outcome is determined by the other outcomes, such a node cannot
be assumed to be measured with outcome 0: for some values of the parameters this
outcome is impossible.
---
 graphix/remove_pauli_measurements.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index 9ee57fb..b226f93 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -34,8 +34,9 @@ from typing_extensions import assert_never
 from graphix.clifford import Clifford, Domains
 from graphix.command import Command
 from graphix.fundamentals import Axis, Sign
-from graphix.measurements import PauliMeasurement
+from graphix.measurements import BlochMeasurement, PauliMeasurement
 from graphix.optimization import StandardizedPattern
+from graphix.parameter import Expression
 from graphix.states import BasicStates
 
 if TYPE_CHECKING:
@@ -510,9 +511,13 @@ class _RemovePauliMeasurements:
                 if spec.pauli_measurement is not None:
                     if spec.pauli_measurement.sign == Sign.MINUS:
                         continue
-                elif measurements[spec.src].clifford(spec.clifford).to_pauli_or_none() is not None:
-                    continue
                 else:
+                    measurement = measurements[spec.src].clifford(spec.clifford)
+                    if measurement.to_pauli_or_none() is not None:
+                        continue
+                    if isinstance(measurement, BlochMeasurement) and isinstance(measurement.angle, Expression):
+                        # The outcome may be determined for some values of the parameters.
+                        continue
                     warn("Non-Pauli measurement on an isolated node was removed.", stacklevel=stacklevel + 1)
                 self._remove_node(node)
 
-- 
2.43.0


From 581acc90196db9fd674bf7df96f05e044a167a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 38/56] fix: compose with an empty pattern or open graph

`Pattern.compose` and `OpenGraph.compose` raised "max() iterable argument is empty"
when the first operand had no node and nothing was relabelled.
---
 graphix/opengraph.py | 2 +-
 graphix/pattern.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/opengraph.py b/graphix/opengraph.py
index a896a92..21afe60 100644
--- a/graphix/opengraph.py
+++ b/graphix/opengraph.py
@@ -711,7 +711,7 @@ class OpenGraph(Parameterizable, Generic[_AM_co]):
             if vm is not None and (uc := self.output_cliffords.get(u)) is not None:
                 measurements_other[v] = vm.clifford(uc)
 
-        shift = max((*self.graph.nodes, *mapping.values())) + 1
+        shift = max((*self.graph.nodes, *mapping.values()), default=-1) + 1
 
         mapping_sequential = {
             node: i for i, node in enumerate(sorted(other.graph.nodes - mapping.keys()), start=shift)
diff --git a/graphix/pattern.py b/graphix/pattern.py
index 1e47e71..96dd680 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -358,7 +358,7 @@ class Pattern(InplaceParameterizable):
                 stacklevel=2,
             )
 
-        shift = max((*nodes_p1, *mapping.values())) + 1
+        shift = max((*nodes_p1, *mapping.values()), default=-1) + 1
         mapping_complete = other.node_mapping(mapping, start=shift)
         other = other.reindex(mapping_complete, copy=True)
 
-- 
2.43.0


From 0b01f30341f0b6b8d2500c2bb53a810910c5a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:30 +0000
Subject: [PATCH 39/56] fix: extract a circuit from an empty open graph

---
 graphix/circ_ext/extraction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphix/circ_ext/extraction.py b/graphix/circ_ext/extraction.py
index faef185..98b5df4 100644
--- a/graphix/circ_ext/extraction.py
+++ b/graphix/circ_ext/extraction.py
@@ -505,7 +505,8 @@ class CliffordMap:
                 f"Isometries are not supported yet: # of inputs ({len(self.input_nodes)}) must be equal to the # of outputs ({len(self.output_nodes)})."
             )
 
-        return MatGF2(np.vstack([ps.to_tableau() for psmap in (self.x_map, self.z_map) for ps in psmap]))
+        rows = [ps.to_tableau() for psmap in (self.x_map, self.z_map) for ps in psmap]
+        return MatGF2(np.array(rows, dtype=np.uint8).reshape(2 * n, 2 * n + 1))
 
 
 def extraction_ps_from_corrected_node(flow: PauliFlow[Measurement], node: Node) -> PauliString:
@@ -596,7 +597,7 @@ def extend_input(og: OpenGraph[Measurement]) -> tuple[OpenGraph[Measurement], di
     This operation preserves the Pauli flow.
     """
     ancillary_inputs_map: dict[int, int] = {}
-    fresh_node = max(og.graph.nodes) + 1
+    fresh_node = max(og.graph.nodes, default=-1) + 1
     graph = og.graph.copy()
     input_nodes = list(og.input_nodes)
     new_input_nodes: list[int] = []
-- 
2.43.0


From 0160a6e0f8dfb403242a9c63ed1fa1a9a8ccc99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:07 +0000
Subject: [PATCH 40/56] fix: count the input nodes in the space list of a
 pattern

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 96dd680..0c60970 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1373,7 +1373,7 @@ class Pattern(InplaceParameterizable):
         N_list : list
             time evolution of 'space' at each 'N' and 'M' commands of pattern.
         """
-        nodes = 0
+        nodes = len(self.__input_nodes)
         n_list = []
         for cmd in self.__seq:
             match cmd.kind:
-- 
2.43.0


From 38d1ebdb73f51f43a5c1ee4c7b7466f71584bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 41/56] fix: update the number of nodes when a pattern is
 rewritten in place

---
 graphix/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 0c60970..abf53ea 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1922,6 +1922,7 @@ class Pattern(InplaceParameterizable):
             return pattern
         self.__seq = pattern.__seq
         self.__output_nodes = pattern.__output_nodes
+        self.__n_node = pattern.__n_node
         return self
 
     def remove_local_clifford_commands(self, *, copy: bool = False) -> Pattern:
@@ -1952,6 +1953,7 @@ class Pattern(InplaceParameterizable):
             return new_pattern
         self.__seq = new_pattern.__seq
         self.__output_nodes = new_pattern.__output_nodes
+        self.__n_node = new_pattern.__n_node
         return self
 
 
-- 
2.43.0


From 19a7dbf0e4af4723a670dcb33d71a45b352e2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 42/56] fix: cancel repeated entanglement when listing
 connected nodes

---
 graphix/pattern.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index abf53ea..cfec6e6 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1272,14 +1272,15 @@ class Pattern(InplaceParameterizable):
         pattern = self if self.is_standard() else optimization.standardize(self)
         if prepared is None:
             prepared = set()
-        node_list = []
+        node_list: list[int] = []
         for cmd in pattern:
-            if cmd.kind == CommandKind.E:
-                if cmd.nodes[0] == node:
-                    if cmd.nodes[1] not in prepared:
-                        node_list.append(cmd.nodes[1])
-                elif cmd.nodes[1] == node and cmd.nodes[0] not in prepared:
-                    node_list.append(cmd.nodes[0])
+            if cmd.kind == CommandKind.E and node in cmd.nodes:
+                neighbor = cmd.nodes[1] if cmd.nodes[0] == node else cmd.nodes[0]
+                if neighbor in node_list:
+                    # Entangling twice the same nodes cancels out.
+                    node_list.remove(neighbor)
+                elif neighbor not in prepared:
+                    node_list.append(neighbor)
         return node_list
 
     def correction_commands(self) -> list[command.X | command.Z]:
-- 
2.43.0


From 763ebad751dc295a1b6314dc5dcda566b29ab871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 43/56] fix: refuse patterns that entangle a node with itself

---
 graphix/pattern.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index cfec6e6..4aa83f1 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1669,6 +1669,8 @@ class Pattern(InplaceParameterizable):
                     n0, n1 = cmd.nodes
                     check_active(cmd, n0)
                     check_active(cmd, n1)
+                    if n0 == n1:
+                        raise RunnabilityError(cmd, n0, RunnabilityErrorReason.EdgeSelfLoop)
                 case CommandKind.M:
                     check_active(cmd, cmd.node)
                     if isinstance(cmd, command.M):
@@ -1980,6 +1982,9 @@ class RunnabilityErrorReason(Enum):
     DomainSelfLoop = enum.auto()
     """A node appears in the domain of its own measurement. This is a particular case of `NotYetMeasured`, introduced to make the error message clearer."""
 
+    EdgeSelfLoop = enum.auto()
+    """A node is entangled with itself."""
+
 
 @dataclass
 class RunnabilityError(PatternError):
@@ -2002,6 +2007,8 @@ class RunnabilityError(PatternError):
                 return f"{self.cmd}: node {self.node} is not yet measured."
             case RunnabilityErrorReason.DomainSelfLoop:
                 return f"{self.cmd}: node {self.node} appears in the domain of its own measurement command."
+            case RunnabilityErrorReason.EdgeSelfLoop:
+                return f"{self.cmd}: node {self.node} is entangled with itself."
             case _:
                 assert_never(self.reason)
 
-- 
2.43.0


From 859efd2a1dd00f7241986273882736cf3e17d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 44/56] fix: measure isolated nodes after local gates with the
 tensor network backend

---
 graphix/sim/tensornet.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index f4a8e39..1ebc371 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -770,8 +770,7 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
         vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
         vecs = (vec, Ops.from_axis(bloch.plane.orth) @ vec)
         if node in self._isolated_nodes:
-            vector: npt.NDArray[np.complex128] = self.state.open_tensor(node)
-            probs = np.array([np.abs(np.vdot(v, vector)) ** 2 for v in vecs], dtype=np.float64)
+            probs = np.array([self._projection_weight(node, v) for v in vecs], dtype=np.float64)
             probs /= np.sum(probs)
             result: Outcome = self.branch_selector.measure(node, lambda: probs[0], rng=rng, stacklevel=stacklevel + 1)
             self.results[node] = result
@@ -784,6 +783,14 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
         self.state.measure_single(node, basis=proj_vec, rng=rng, stacklevel=stacklevel + 1)
         return result
 
+    def _projection_weight(self, node: int, vec: npt.NDArray[np.complex128]) -> float:
+        """Return the squared norm of the part of the network connected to ``node`` after projecting ``node`` onto ``vec``."""
+        ind = self.state._dangling[str(node)]
+        components = TensorNetwork(self.state.tensors).subgraphs()
+        component = next(component for component in components if ind in component.ind_map)
+        projected = component & Tensor(vec.conj(), [ind])
+        return float(np.abs((projected.H & projected).contract(output_inds=())))
+
     @override
     def correct_byproduct(self, cmd: command.X | command.Z) -> None:
         op = Ops.X if isinstance(cmd, command.X) else Ops.Z
-- 
2.43.0


From f332a424c326d150082fd7c4b19c4cfd00ee282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:53 +0000
Subject: [PATCH 45/56] fix: reduce non-contiguous binary matrices in place
 when copy=False

---
 graphix/_linalg.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/graphix/_linalg.py b/graphix/_linalg.py
index 11f509b..0513ba2 100644
--- a/graphix/_linalg.py
+++ b/graphix/_linalg.py
@@ -151,7 +151,11 @@ class MatGF2(npt.NDArray[np.uint8]):
         ncols_value = self.shape[1] if ncols is None else ncols
         mat_ref = MatGF2(self) if copy else self
 
-        return MatGF2(_elimination_jit(np.ascontiguousarray(mat_ref), ncols=ncols_value, full_reduce=False), copy=False)
+        result = _elimination_jit(np.ascontiguousarray(mat_ref), ncols=ncols_value, full_reduce=False)
+        if not copy and not self.flags.c_contiguous:
+            # The kernel worked on a contiguous copy of `self`.
+            self[:] = result
+        return MatGF2(result, copy=False)
 
     def row_reduction(self, ncols: int | None = None, copy: bool = True) -> MatGF2:
         """Return row-reduced echelon form (RREF) by performing Gaussian elimination.
@@ -172,7 +176,11 @@ class MatGF2(npt.NDArray[np.uint8]):
         ncols_value = self.shape[1] if ncols is None else ncols
         mat_ref = self.copy() if copy else self
 
-        return MatGF2(_elimination_jit(np.ascontiguousarray(mat_ref), ncols=ncols_value, full_reduce=True), copy=False)
+        result = _elimination_jit(np.ascontiguousarray(mat_ref), ncols=ncols_value, full_reduce=True)
+        if not copy and not self.flags.c_contiguous:
+            # The kernel worked on a contiguous copy of `self`.
+            self[:] = result
+        return MatGF2(result, copy=False)
 
 
 def solve_f2_linear_system(mat: MatGF2, b: MatGF2) -> MatGF2:
-- 
2.43.0


From 445dd2113f0267f6721f6d5442c81223777c8d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 46/56] fix: check qubit indices before swapping qubits of a
 state vector

---
 graphix/sim/statevec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 0cb4eac..9ba9d05 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -503,6 +503,9 @@ class Statevector(DenseState):
         qubits : tuple[int, int]
             (control, target) qubit indices.
         """
+        # There is no bounds checking in Numba: out-of-bound indices would write outside the array.
+        for qubit in qubits:
+            self._check_bounds(qubit)
         _swap_jit(self._psi, self.nqubit, *qubits)
 
     def tensor(self, other: Statevector) -> None:
-- 
2.43.0


From d41a2f0bbcef86c3abe34c86c1896d07a816b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 47/56] fix: refuse state vectors whose length is not a power
 of two when nqubit is given

---
 graphix/sim/statevec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 9ba9d05..7fb9190 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -186,10 +186,10 @@ class Statevector(DenseState):
 
         # `SupportsFloat` is needed because `numpy.float64` is not an instance of `SupportsComplex`!
         elif isinstance(input_list[0], (SupportsComplex, SupportsFloat)):
+            if length & (length - 1):
+                raise ValueError(f"Length of input data is not a power of two: {length}.")
             inferred_nqubit = length.bit_length() - 1
             if nqubit is None:
-                if length & (length - 1):
-                    raise ValueError(f"Length of input data is not a power of two: {length}.")
                 nqubit = inferred_nqubit
             elif nqubit != inferred_nqubit:
                 raise ValueError(f"Mismatch between nqubit and inferred nqubit: {nqubit} != {inferred_nqubit}.")
-- 
2.43.0


From 1a18e73465c72577a0e7c1ef11c61298a09f61bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 48/56] fix: rand_gate entangled only in the first layer when
 pairs is an iterator

---
 graphix/random_objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index c966c4a..db97336 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -312,6 +312,8 @@ def rand_gate(
     """
     rng = ensure_rng(rng, stacklevel=stacklevel + 1)
     circuit = Circuit(nqubits)
+    # ``pairs`` is used once per layer: an iterator would be exhausted by the first one.
+    pairs = tuple(pairs)
     _first_rotation(circuit, nqubits, rng)
     _entangler(circuit, pairs)
     for _ in range(depth - 1):
-- 
2.43.0


From 39c72573845a7b4302b06f864c10bcac3fc2a304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 49/56] fix: rand_pauli_channel_kraus raised IndexError when
 the source draws 0.0

---
 graphix/random_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index db97336..8233efa 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -176,8 +176,8 @@ def rand_pauli_channel_kraus(
 
     # full probability has to have dim**2 operators.
     prob_list = np.zeros(dim**2)
-    # generate rank random numbers and normalize
-    tmp_list = rng.uniform(size=rank)
+    # generate rank random numbers in (0, 1], so that exactly rank operators are kept, and normalize
+    tmp_list = 1 - rng.uniform(size=rank)
     tmp_list /= tmp_list.sum()
 
     # fill the list and shuffle
-- 
2.43.0


From 2ec45920144b2fe0e903bbf0cdffa21672281a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 50/56] fix: rand_dm returned NaN when the source draws 0.0

---
 graphix/random_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index 8233efa..d7e9d3c 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -69,7 +69,8 @@ def rand_dm(
     if rank is None:
         rank = dim
 
-    evals = rng.random(size=rank)
+    # In (0, 1]: the sum cannot vanish and the rank is exactly the requested one.
+    evals = 1 - rng.random(size=rank)
 
     padded_evals = np.zeros(dim)
     padded_evals[: len(evals)] = evals
-- 
2.43.0


From 7ba82991883c4ff32f13a4d9a3449fb5d0d16cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:00 +0000
Subject: [PATCH 51/56] fix: MBQCTensorNet.add_qubit and add_qubits rejected
 array states

---
 graphix/sim/tensornet.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 1ebc371..dc97542 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -111,7 +111,9 @@ class MBQCTensorNet(TensorNetwork):
         """
         ind = gen_str()
         tag = str(index)
-        match state:
+        vec: npt.NDArray[np.complex128]
+        # An array cannot be matched against string patterns: the comparison is elementwise.
+        match state if isinstance(state, str) else None:
             case "plus":
                 vec = BasicStates.PLUS.to_statevector_numpy()
             case "minus":
@@ -180,13 +182,16 @@ class MBQCTensorNet(TensorNetwork):
             # `states` is of type `PrepareState`, a type alias for
             # `str | npt.NDArray[np.complex128]`. To distinguish
             # between the two cases, we just need to check whether
-            # an element is a character or a complex number.
-            if len(states_list) == 0 or isinstance(states_list[0], SupportsComplex):
+            # an element is a complex number (arrays also have a
+            # `__complex__` method).
+            if len(states_list) == 0 or (
+                isinstance(states_list[0], SupportsComplex) and not isinstance(states_list[0], np.ndarray)
+            ):
                 states_iter = [np.array(states_list)] * len(indices)
             else:
 
                 def get_prepare_state(item: PrepareState | SupportsComplex) -> PrepareState:
-                    if isinstance(item, SupportsComplex):
+                    if isinstance(item, SupportsComplex) and not isinstance(item, np.ndarray):
                         raise TypeError("Unexpected complex")
                     return item
 
-- 
2.43.0


From 1c4c70ee6f9d60e31b8e34f0e55cc15c1b8fa471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:41 +0000
Subject: [PATCH 52/56] fix: graph_to_fusion_network with a bounded GHZ size
 looped forever or returned cycles as linear clusters

---
 graphix/extraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/extraction.py b/graphix/extraction.py
index eea0dc3..34b8fd3 100644
--- a/graphix/extraction.py
+++ b/graphix/extraction.py
@@ -98,7 +98,8 @@ def graph_to_fusion_network(
     # Find GHZ graphs in the graph and remove their edges from the graph.
     # All nodes that have more than 2 edges become the roots of the GHZ clusters.
     for v, _ in sorted(neighbors_list, key=operator.itemgetter(1), reverse=True):
-        if len(adjdict[v]) > 2:
+        # Several clusters share the same root when `max_ghz` is too small to take all its edges.
+        while len(adjdict[v]) > 2:
             nodes = [v]
             while len(adjdict[v]) > 0 and len(nodes) < max_ghz:
                 n, _ = adjdict[v].popitem()
-- 
2.43.0


From 5213e0fa09f60f0a5e224bf73f8a87cc6f587327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:16 +0000
Subject: [PATCH 53/56] fix: drawing close nodes dropped edges or raised
 IndexError

---
 graphix/visualization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index 10ae8f0..bdbb0e0 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -1063,7 +1063,8 @@ def _check_path(path: Iterable[_Point], target_node_pos: _Point | None = None) -
             acute = False
     new_path: list[_Point] = path.tolist()
     if target_node_pos is not None:
-        for point in new_path[:-1]:
+        # The start of the path is kept even if the nodes are close to each other.
+        for point in new_path[1:-1]:
             if np.linalg.norm(np.array(point) - np.array(target_node_pos)) < 0.2:
                 new_path.remove(point)
     return new_path
-- 
2.43.0


From 649e658bbbe4d137d6b94ec44557e7f668df6f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:16 +0000
Subject: [PATCH 54/56] fix: node_labels=False did not hide the node labels

---
 graphix/visualization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index bdbb0e0..23c6195 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -413,6 +413,8 @@ class GraphVisualizer:
                 fc = PAULI_NODE_FC
             plt.scatter(*self.pos[node], edgecolor=ec, facecolor=fc, s=350, zorder=2, marker=marker)
 
+        if self.options.node_labels is False:
+            return
         labels = dict(self.options.node_labels) if isinstance(self.options.node_labels, Mapping) else None
         fontsize = NODE_LABEL_FS
         if max(self.og.graph.nodes(), default=0) >= 100:
-- 
2.43.0


From 613b3b3c32dcd20d3408aa7b03bfb39c768c413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:16 +0000
Subject: [PATCH 55/56] fix: drawing a narrow figure with a legend raised
 ValueError

---
 graphix/visualization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index 23c6195..0165728 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -645,7 +645,9 @@ class GraphVisualizer:
 
         width, height = fig.get_size_inches()
         fig.set_size_inches(width + legend_width, max(height, legend_height), forward=True)
-        fig.subplots_adjust(right=width / (width + legend_width))
+        right = width / (width + legend_width)
+        # The left margin of a narrow figure may not reach beyond the plot.
+        fig.subplots_adjust(left=min(fig.subplotpars.left, right / 2), right=right)
 
 
 @singledispatch
-- 
2.43.0


From 912d7d3b19415d9e886558375614ed8f654a5ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:09 +0000
Subject: [PATCH 56/56] fix: GraphState.draw did not show the sign of node 0

---
 graphix/graphsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index e5d2979..a279998 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -487,7 +487,7 @@ class GraphState(Graph):
         nqubit = len(self.nodes)
         nodes = list(self.nodes)
         edges: list[tuple[int, int]] = list(self.edges)
-        labels = {i: i for i in iter(self.nodes)}
+        labels = {i: str(i) for i in iter(self.nodes)}
         colors = [fill_color for _ in range(nqubit)]
         for i in range(nqubit):
             if self.nodes[nodes[i]]["loop"]:
@@ -495,7 +495,7 @@ class GraphState(Graph):
             if self.nodes[nodes[i]]["hollow"]:
                 colors[i] = "white"
             if self.nodes[nodes[i]]["sign"]:
-                labels[nodes[i]] = -1 * labels[nodes[i]]
+                labels[nodes[i]] = f"-{nodes[i]}"
         g: nx.Graph[int] = nx.Graph()
         g.add_nodes_from(nodes)
         g.add_edges_from(edges)
-- 
2.43.0

