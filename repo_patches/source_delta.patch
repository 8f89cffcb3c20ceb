From aeef97e1b1cebfeb71bee5e9d936da27ac0db15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 01/79] fix: taking the adjoint twice gives the gate back

dag() set a flag, so the adjoint of an adjoint stayed the adjoint.
---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py   | 3 ++-
 .../compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py   | 3 ++-
 src/mqt/qudits/quantum_circuit/gate.py                         | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index fe13562..f03a688 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 from __future__ import annotations
 
+import copy
 import gc
 import typing
 from operator import itemgetter
@@ -33,7 +34,7 @@ class LogEntQRCEXPass(CompilerPass):
     def transpile_gate(gate: Gate) -> list[Gate]:
         eqr = EntangledQRCEX(gate)
         decomp, _countcr, _countpsw = eqr.execute()
-        return [op.dag() for op in reversed(decomp)]
+        return [copy.copy(op).dag() for op in reversed(decomp)]  # a gate may occur repeatedly
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 1c24a28..5a45ad4 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import gc
 from typing import TYPE_CHECKING, cast
 
@@ -62,7 +63,7 @@ class PhyEntQRCEXPass(CompilerPass):
         perm_0_d_seq.extend(perm_0_seq)
         perm_0_d_seq.extend(perm_1_seq)
 
-        return [op.dag() for op in reversed(decomp)]
+        return [copy.copy(op).dag() for op in reversed(decomp)]  # a gate may occur repeatedly
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index bfe3e35..a241d87 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -85,7 +85,7 @@ class Gate(Instruction):
 
     def dag(self) -> Gate:
         self._name += "_dag"
-        self.dagger = True
+        self.dagger = not self.dagger
         return self
 
     def to_matrix(self, identities: int = 0) -> NDArray:
-- 
2.43.0


From 9299ab4c0806eb7cdfbf343cf2dc777f5f2bb900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 02/79] fix: whole-circuit physical QR pass emits each gate's
 sequence in circuit order

transpile() daggered and reversed the sequence transpile_gate() had already
daggered and reversed, so the emitted rotations did not realise the gate.
---
 .../onedit/mapping_aware_transpilation/phy_local_qr_decomp.py    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
index c3da3df..07f9d71 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
@@ -38,7 +38,6 @@ class PhyLocQRPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.SINGLE:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans = [op.dag() for op in reversed(gate_trans)]
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
-- 
2.43.0


From 65dd08c56cccc1d61b5ed2fec6a83eecf3285515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:50 +0000
Subject: [PATCH 03/79] fix: MS and LS on targets listed in descending line
 order with unequal dimensions

The matrix was built in target order while every consumer reads it in line
order, so the gate acted on the wrong basis states.
---
 src/mqt/qudits/quantum_circuit/gates/ls.py | 12 ++++++++----
 src/mqt/qudits/quantum_circuit/gates/ms.py |  8 +++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/ls.py b/src/mqt/qudits/quantum_circuit/gates/ls.py
index 79b720e..d9d8354 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ls.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ls.py
@@ -45,15 +45,19 @@ class LS(Gate):
             self._params = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
+        # matrices are laid out in the order of the lines, as for the other two-qudit gates
+        qudits_targeted = cast(list[int], self.target_qudits)
+        ordered_dimensions = (
+            self.dimensions if qudits_targeted[0] < qudits_targeted[1] else list(reversed(self.dimensions))
+        )
+        dimension_0, dimension_1 = ordered_dimensions
 
         exp_matrix = np.zeros((dimension_0 * dimension_1, dimension_0 * dimension_1), dtype="complex")
         d_min = min(dimension_0, dimension_1)
         for i in range(d_min):
             exp_matrix += np.outer(
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
+                np.array(from_dirac_to_basis([i, i], ordered_dimensions)),
+                np.array(from_dirac_to_basis([i, i], ordered_dimensions)),
             )
 
         return expm(-1j * self.theta * exp_matrix)
diff --git a/src/mqt/qudits/quantum_circuit/gates/ms.py b/src/mqt/qudits/quantum_circuit/gates/ms.py
index db3aaeb..7e3fc35 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ms.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ms.py
@@ -44,10 +44,12 @@ class MS(Gate):
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
         theta = self.theta
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
         ps: list[int | str] = [0, 1, "s"]
-        qudits_targeted = cast(list[int], self.target_qudits)
+        # matrices are laid out in the order of the lines, as for the other two-qudit gates
+        qudits_targeted = sorted(cast(list[int], self.target_qudits))
+        dimension_0, dimension_1 = (
+            self.dimensions if qudits_targeted == self.target_qudits else reversed(self.dimensions)
+        )
         qudit_targeted_0: int = qudits_targeted[0]
         qudit_targeted_1: int = qudits_targeted[1]
 
-- 
2.43.0


From 5a0c858e56051ac980e73129c2ea207ca8c7791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 04/79] fix: check control levels against the dimensions of the
 control lines

They were checked against the first lines of the register, so valid controls
were rejected and out-of-range ones accepted on mixed-dimension registers.
---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index a241d87..c6151c6 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -123,7 +123,7 @@ class Gate(Instruction):
             raise IndexError(msg)
         # if isinstance(self._dimensions, int):
         #    dimensions = [self._dimensions]
-        if any(ctrl >= self.parent_circuit.dimensions[i] for i, ctrl in enumerate(ctrl_states)):
+        if any(ctrl >= self.parent_circuit.dimensions[idx] for idx, ctrl in zip(indices, ctrl_states)):
             msg = "Controls States beyond qudit size "
             raise IndexError(msg)
         self._controls_data = ControlData(indices, ctrl_states)
-- 
2.43.0


From 12542698bac3311539c9ce00685d8558afc743a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 05/79] fix: embed single-qudit gates with the dimension of
 their own line

The register-wide line number indexed the spanned slice of dimensions, which
failed or picked another line's dimension whenever the slice starts after line 0.
---
 .../quantum_circuit/components/extensions/matrix_factory.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
index aed2a37..dc44438 100644
--- a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
+++ b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
@@ -81,7 +81,7 @@ class MatrixFactory:
         slide_indices_rest = [q - min(ref_lines) for q in rest_of_indices]
 
         single_site_logics = (
-            [list(range(dimensions[qudits_applied[0]]))]
+            [list(range(dimensions[slide_indices_qudits_a[0]]))]
             if len(qudits_applied) == 1
             else [list(range(d)) for d in operator.itemgetter(*slide_indices_qudits_a)(dimensions)]
         )
-- 
2.43.0


From 4f4f4b61629fc9672c73e95ff0b07b4807a57b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 06/79] fix: remember that attaching a control made a gate long
 range

control() computed the flag and dropped it, so simulating a gate controlled
across another line failed.
---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index c6151c6..7f13173 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -132,7 +132,7 @@ class Gate(Instruction):
             self.set_gate_type_two()
         elif len(self.reference_lines) > 2:
             self.set_gate_type_multi()
-        self.check_long_range()
+        self.is_long_range = self.check_long_range()
         return self
 
     def validate_parameter(self, param: Parameter) -> bool:  # noqa: PLR6301 ARG002
-- 
2.43.0


From 3e74fa2464c964f0b38d3a3c51cbb9680525d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 07/79] fix: decision-diagram simulation accepts level pairs
 given in descending order

R, Rz and Rh treat the pair as unordered; the bindings refused (2,0) where the
other simulator and the gate matrices take it as (0,2).
---
 src/python/bindings.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 89fa626..309a7db 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -521,6 +521,9 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto pl = params.cast<py::list>();
     auto leva = pl[0].cast<size_t>();
     auto levb = pl[1].cast<size_t>();
+    if (leva > levb) {
+      std::swap(leva, levb); // a level pair is unordered
+    }
     auto theta = pl[2].cast<double>();
     auto phi = pl[3].cast<double>();
 
@@ -555,6 +558,9 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
 
     auto leva = pl[0].cast<size_t>();
     auto levb = pl[1].cast<size_t>();
+    if (leva > levb) {
+      std::swap(leva, levb); // a level pair is unordered
+    }
     auto phi = pl[2].cast<double>();
 
     if (checkDim(dims, 2)) {
@@ -585,6 +591,9 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto pl = params.cast<py::list>();
     auto leva = pl[0].cast<size_t>();
     auto levb = pl[1].cast<size_t>();
+    if (leva > levb) {
+      std::swap(leva, levb); // a level pair is unordered
+    }
 
     if (checkDim(dims, 2)) {
       dd::GateMatrix matrix = dd::RH();
-- 
2.43.0


From 51c8b0879113c5d8c42e46de034db60af424fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 08/79] fix: decision-diagram simulation refuses gates it does
 not support

An unsupported gate or dimension left the gate's diagram uninitialised and the
process crashed; raise an error naming the gate instead.
---
 src/python/bindings.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 309a7db..69fbaf1 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -502,7 +502,7 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
   const auto& [tag, dag, dims, gate_type, target_qudits, params, control_set] =
       instruction;
 
-  dd::MDDPackage::mEdge gate;
+  dd::MDDPackage::mEdge gate{};
   auto numberRegs =
       static_cast<dd::QuantumRegisterCount>(dd->numberOfQuantumRegisters);
 
@@ -765,6 +765,11 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto target = static_cast<dd::QuantumRegister>(target_qudits.at(1));
     return dd->csum(numberRegs, cReg, target, dag);
   }
+  if (gate.nextNode == nullptr) {
+    throw std::invalid_argument("Gate " + tag +
+                                " is not supported by this simulator on qudits "
+                                "of the given dimension.");
+  }
   if (dag) {
     gate = dd->conjugateTranspose(gate);
   }
-- 
2.43.0


From 414223aee4bbecbdd0491aaa508878cec5890531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 09/79] fix: export the control lines of controlled gates to
 QASM

The target line was printed in place of every control line.
---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 7f13173..8d076fd 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -179,7 +179,7 @@ class Gate(Instruction):
             string += " ctl "
             for _ctrl in self._controls_data.indices:
                 string += (
-                    f"{self.parent_circuit.inverse_sitemap[qudit][0]}[{self.parent_circuit.inverse_sitemap[qudit][1]}] "
+                    f"{self.parent_circuit.inverse_sitemap[_ctrl][0]}[{self.parent_circuit.inverse_sitemap[_ctrl][1]}] "
                 )
             string += str(self._controls_data.ctrl_states)
 
-- 
2.43.0


From 3e4710a4faad121311e37be60ac20b670f8ab74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 10/79] fix: keep the parameters of gates read from QASM

The parser hands over a tuple of floats while the gates accept a list whose
levels are integers and silently ignore anything else, so every parametrised
gate read from QASM lost its levels and angles.
---
 src/mqt/qudits/quantum_circuit/circuit.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index fb83ac3..5ee2c99 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -87,6 +87,8 @@ class QuantumCircuit:
         "x": "x",
         "z": "z",
     }
+    # how many of the leading parameters of an operation are levels (integers)
+    qasm_level_parameters: ClassVar = {"cx": 3, "pm": None, "rh": 2, "rxy": 2, "rz": 2, "virtrz": 1}
 
     def __init__(self, *args: int | QuantumRegister | list[int] | None) -> None:
         self.cl_inverse_sitemap: InverseSitemap = {}
@@ -347,10 +349,15 @@ class QuantumCircuit:
                     else:
                         qudits_call = [t[0] for t in list(tuples_qudits)]
                     if is_not_none_or_empty(op["params"]):
+                        params = op["params"]
+                        if not isinstance(params, np.ndarray):
+                            levels = slice(self.qasm_level_parameters.get(op["name"], 0))
+                            params = list(params)
+                            params[levels] = [int(level) for level in params[levels]]
                         if op["controls"]:
-                            function(qudits_call, op["params"], op["controls"])
+                            function(qudits_call, params, op["controls"])
                         else:
-                            function(qudits_call, op["params"])
+                            function(qudits_call, params)
                     elif op["controls"]:
                         function(qudits_call, op["controls"])
                     else:
-- 
2.43.0


From 9a2be34721ca093884402a94cd08ad4afb9f359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 11/79] fix: read noisex and noisey operations back from QASM

They are exported under these names but were silently dropped on import.
---
 src/mqt/qudits/quantum_circuit/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 5ee2c99..0c8e6f6 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -77,6 +77,8 @@ class QuantumCircuit:
         "h": "h",
         "ls": "ls",
         "ms": "ms",
+        "noisex": "noisex",
+        "noisey": "noisey",
         "pm": "pm",
         "rxy": "r",
         "rh": "rh",
@@ -88,7 +90,7 @@ class QuantumCircuit:
         "z": "z",
     }
     # how many of the leading parameters of an operation are levels (integers)
-    qasm_level_parameters: ClassVar = {"cx": 3, "pm": None, "rh": 2, "rxy": 2, "rz": 2, "virtrz": 1}
+    qasm_level_parameters: ClassVar = {"cx": 3, "noisex": 2, "noisey": 2, "pm": None, "rh": 2, "rxy": 2, "rz": 2, "virtrz": 1}
 
     def __init__(self, *args: int | QuantumRegister | list[int] | None) -> None:
         self.cl_inverse_sitemap: InverseSitemap = {}
-- 
2.43.0


From ecb12ee529a1643b77fab80a0f38a33f96d58141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 12/79] fix: never store a custom gate's matrix over that of
 another gate

The file name's random suffix was not checked against the files already there,
so a repeated suffix silently replaced an earlier gate's matrix.
---
 src/mqt/qudits/quantum_circuit/gate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 8d076fd..2433c4a 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -219,7 +219,9 @@ class Gate(Instruction):
         if not self.parent_circuit.path_save:
             return "(custom_data) "
 
-        key = "".join(random.choice(string.ascii_letters) for _ in range(4))  # noqa: S311
-        file_path = Path(self.parent_circuit.path_save) / f"{self._name}_{key}.npy"
+        file_path = None
+        while file_path is None or file_path.exists():
+            key = "".join(random.choice(string.ascii_letters) for _ in range(4))  # noqa: S311
+            file_path = Path(self.parent_circuit.path_save) / f"{self._name}_{key}.npy"
         np.save(file_path, self._params)
         return f"({file_path}) "
-- 
2.43.0


From 92a08d6adf8f3677aff672824e8fc0ec978db764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 13/79] fix: phase gates reject unusable levels instead of
 silently acting as the identity

---
 src/mqt/qudits/quantum_circuit/gates/virt_rz.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/virt_rz.py b/src/mqt/qudits/quantum_circuit/gates/virt_rz.py
index b5be526..7d59580 100644
--- a/src/mqt/qudits/quantum_circuit/gates/virt_rz.py
+++ b/src/mqt/qudits/quantum_circuit/gates/virt_rz.py
@@ -54,11 +54,11 @@ class VirtRz(Gate):
             return False
 
         if isinstance(param, list):
-            if len(param) != 2:
-                return False
-            if not (isinstance(param[0], int) and isinstance(param[1], float)):
-                return False
-            return 0 <= param[0] < self.dimensions
+            assert len(param) == 2, "A level and an angle are expected"
+            assert isinstance(param[0], (int, np.integer))
+            assert isinstance(param[1], (int, float))
+            assert 0 <= param[0] < self.dimensions, f"level is out of range: {param[0]}"
+            return True
 
         if isinstance(param, np.ndarray):
             # Add validation for numpy array if needed
-- 
2.43.0


From 14d3df4e4b3fe562470e04eed06896b7492d91e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 14/79] fix: permutation gates reject lists that are not
 permutations

---
 src/mqt/qudits/quantum_circuit/gates/perm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/quantum_circuit/gates/perm.py b/src/mqt/qudits/quantum_circuit/gates/perm.py
index 3ee94bf..8f27034 100644
--- a/src/mqt/qudits/quantum_circuit/gates/perm.py
+++ b/src/mqt/qudits/quantum_circuit/gates/perm.py
@@ -53,6 +53,7 @@ class Perm(Gate):
             assert all((0 <= num < len(parameter) and num < dims) for num in p), (
                 "Numbers are not within the range of the list length"
             )
+            assert sorted(p) == list(range(dims)), "Every level has to appear exactly once"
 
             return True
 
-- 
2.43.0


From feb7d72dd51c8ec4ffbe661c5cb046f6f64834af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 15/79] fix: reject negative, repeated or incomplete controls

---
 src/mqt/qudits/quantum_circuit/gate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 2433c4a..df3d957 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -109,8 +109,11 @@ class Gate(Instruction):
             return self
         # AT THE MOMENT WE SUPPORT CONTROL OF SINGLE QUDIT GATES
         assert self.gate_type == GateTypes.SINGLE
+        if len(indices) != len(ctrl_states) or len(set(indices)) != len(indices):
+            msg = "Each control line needs exactly one control level"
+            raise IndexError(msg)
         if len(indices) > self.parent_circuit.num_qudits or any(
-            idx >= self.parent_circuit.num_qudits for idx in indices
+            not 0 <= idx < self.parent_circuit.num_qudits for idx in indices
         ):
             msg = "Indices or Number of Controls is beyond the Quantum Circuit Size"
             raise IndexError(msg)
@@ -123,7 +126,7 @@ class Gate(Instruction):
             raise IndexError(msg)
         # if isinstance(self._dimensions, int):
         #    dimensions = [self._dimensions]
-        if any(ctrl >= self.parent_circuit.dimensions[idx] for idx, ctrl in zip(indices, ctrl_states)):
+        if any(not 0 <= ctrl < self.parent_circuit.dimensions[idx] for idx, ctrl in zip(indices, ctrl_states)):
             msg = "Controls States beyond qudit size "
             raise IndexError(msg)
         self._controls_data = ControlData(indices, ctrl_states)
-- 
2.43.0


From 179df09312b1113374ff33193ced8c4564f4cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 16/79] fix: circuits keep their own copy of the lists gates
 and registers are built from

---
 src/mqt/qudits/quantum_circuit/circuit.py                     | 2 +-
 src/mqt/qudits/quantum_circuit/components/quantum_register.py | 2 +-
 src/mqt/qudits/quantum_circuit/gate.py                        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 0c8e6f6..5f060e2 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -58,7 +58,7 @@ G = TypeVar("G", bound="Gate")
 
 def add_gate_decorator(func: Callable[..., G]) -> Callable[..., G]:
     def gate_constructor(circ: QuantumCircuit, *args: Any) -> G:  # noqa: ANN401
-        gate = func(circ, *args)
+        gate = func(circ, *copy.deepcopy(args))  # later changes to the caller's lists do not reach the circuit
         circ.number_gates += 1
         circ.instructions.append(gate)
         return gate
diff --git a/src/mqt/qudits/quantum_circuit/components/quantum_register.py b/src/mqt/qudits/quantum_circuit/components/quantum_register.py
index 0843dda..53cadc6 100644
--- a/src/mqt/qudits/quantum_circuit/components/quantum_register.py
+++ b/src/mqt/qudits/quantum_circuit/components/quantum_register.py
@@ -40,7 +40,7 @@ class QuantumRegister:
     def __init__(self, name: str, size: int, dims: list[int] | None = None) -> None:
         self.label = name
         self.size: int = size
-        self.dimensions: list[int] = size * [2] if dims is None else dims
+        self.dimensions: list[int] = size * [2] if dims is None else list(dims)
         self.local_sitemap: dict[int, int] = {}
 
     def __qasm__(self) -> str:  # noqa: PLW3201
diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index df3d957..4ef404d 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -129,7 +129,7 @@ class Gate(Instruction):
         if any(not 0 <= ctrl < self.parent_circuit.dimensions[idx] for idx, ctrl in zip(indices, ctrl_states)):
             msg = "Controls States beyond qudit size "
             raise IndexError(msg)
-        self._controls_data = ControlData(indices, ctrl_states)
+        self._controls_data = ControlData(list(indices), list(ctrl_states))
         # Set new type
         if len(self.reference_lines) == 2:
             self.set_gate_type_two()
-- 
2.43.0


From fa8d19d3b265c2567fbd251877cff5bb2ad65f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 17/79] fix: resetting a circuit forgets the mapping of its
 former content

---
 src/mqt/qudits/quantum_circuit/circuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 5f060e2..60ac779 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -150,6 +150,7 @@ class QuantumCircuit:
         self.num_cl = 0
         self.num_qudits = 0
         self._dimensions = []
+        self.mappings = None
         self.path_save = None
 
     def copy(self) -> QuantumCircuit:
-- 
2.43.0


From f46c65707b75825a24403cc9961fc15642d251ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 18/79] fix: refuse registers whose name is taken or that lack
 dimensions

---
 src/mqt/qudits/quantum_circuit/circuit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 60ac779..3befcdb 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -157,6 +157,12 @@ class QuantumCircuit:
         return copy.deepcopy(self)
 
     def append(self, qreg: QuantumRegister) -> None:
+        if any(str(other.label) == str(qreg.label) for other in self.quantum_registers):
+            msg = f"The circuit already has a register named {qreg.label}"
+            raise ValueError(msg)
+        if len(qreg.dimensions) < qreg.size:
+            msg = "A register needs a dimension for each qudit"
+            raise ValueError(msg)
         self.quantum_registers.append(qreg)
         self.num_qudits += qreg.size
         self._dimensions += qreg.dimensions
-- 
2.43.0


From f7a2e25f54224689db1c47e8cdee7a13a63907fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 19/79] fix: gates refuse repeated or negative target lines

---
 src/mqt/qudits/quantum_circuit/gate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 4ef404d..02761d1 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -50,6 +50,10 @@ class Gate(Instruction):
         self.parent_circuit = circuit
         self._name = name
         self.gate_type = gate_type
+        lines = target_qudits if isinstance(target_qudits, list) else [target_qudits]
+        if len(set(lines)) != len(lines) or any(line < 0 for line in lines):
+            msg = f"Targets have to be distinct lines of the circuit: {target_qudits}"
+            raise IndexError(msg)
         self._target_qudits = target_qudits
         self._dimensions = dimensions
         self._params: Parameter = params
-- 
2.43.0


From 5fbad33bb97d71659218673d6374f9a1de093c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 20/79] fix: custom gates refuse matrices that do not fit their
 qudits

---
 src/mqt/qudits/quantum_circuit/gates/custom_one.py | 3 +++
 src/mqt/qudits/quantum_circuit/gates/custom_two.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/gates/custom_one.py b/src/mqt/qudits/quantum_circuit/gates/custom_one.py
index db6aff2..d4a1049 100644
--- a/src/mqt/qudits/quantum_circuit/gates/custom_one.py
+++ b/src/mqt/qudits/quantum_circuit/gates/custom_one.py
@@ -38,6 +38,9 @@ class CustomOne(Gate):
         )
         self.__array_storage: NDArray = None
         if self.validate_parameter(parameters):
+            if parameters is not None and parameters.shape != 2 * (int(np.prod(dimensions)),):
+                msg = f"Matrix of shape {parameters.shape} does not fit qudits of dimension {dimensions}"
+                raise ValueError(msg)
             self.__array_storage = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
diff --git a/src/mqt/qudits/quantum_circuit/gates/custom_two.py b/src/mqt/qudits/quantum_circuit/gates/custom_two.py
index d51703b..faf348d 100644
--- a/src/mqt/qudits/quantum_circuit/gates/custom_two.py
+++ b/src/mqt/qudits/quantum_circuit/gates/custom_two.py
@@ -38,6 +38,9 @@ class CustomTwo(Gate):
         )
         self.__array_storage: NDArray = None
         if self.validate_parameter(parameters):
+            if parameters is not None and parameters.shape != 2 * (int(np.prod(dimensions)),):
+                msg = f"Matrix of shape {parameters.shape} does not fit qudits of dimension {dimensions}"
+                raise ValueError(msg)
             self.__array_storage = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
-- 
2.43.0


From 804ae2246a50994b94bae0997b0a8b2235340016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 21/79] fix: a block comment closed on its own line does not
 swallow the rest of the program

---
 src/mqt/qudits/quantum_circuit/qasm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 0627cba..f59a48e 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -198,6 +198,9 @@ class QASM:
         # only want to warn once about each ignored instruction
         warned: dict[str, bool] = {}
 
+        # Comments may end anywhere, also on the line they start on
+        contents = re.sub(r"/\*.*?\*/|//[^\n]*", " ", contents, flags=re.DOTALL)
+
         # Process each line
         in_comment = False
         for current_line in contents.split("\n"):
-- 
2.43.0


From f095b1ff02f4a3c60214f7691302c3dfdcd59d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 22/79] fix: read every statement of a line of QASM

---
 src/mqt/qudits/quantum_circuit/qasm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index f59a48e..5a8ef54 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -203,7 +203,7 @@ class QASM:
 
         # Process each line
         in_comment = False
-        for current_line in contents.split("\n"):
+        for current_line in contents.replace(";", ";\n").split("\n"):
             line = current_line.strip()
 
             continue_flag, in_comment = self.parse_nonspecial_lines(line, rgxs, in_comment)
-- 
2.43.0


From 0a26c820dd61e71795a8a4f254fa406e71002d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 23/79] fix: refuse unknown or conditional operations instead
 of misreading them

---
 src/mqt/qudits/quantum_circuit/circuit.py | 3 +++
 src/mqt/qudits/quantum_circuit/qasm.py    | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 3befcdb..d256bc0 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -342,6 +342,9 @@ class QuantumCircuit:
         qasm_set = self.get_qasm_set()
 
         for op in instructions:
+            if op["name"] not in qasm_set:
+                msg = f"Unknown operation: {op['name']}"
+                raise NotImplementedError(msg)
             if op["name"] in qasm_set:
                 gate_constructor_name = qasm_set[op["name"]]
                 if hasattr(self, gate_constructor_name):
diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 5a8ef54..638e673 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -93,7 +93,7 @@ class QASM:
         sitemap: dict[tuple[str, int], tuple[int, int]],
         gates: list[dict[str, Any]],
     ) -> bool:
-        match = rgxs["gate_matrix"].search(line)
+        match = rgxs["gate_matrix"].match(line)
         if match:
             label = match.group(1)
             params = match.group(2)
-- 
2.43.0


From 651b5a8d7fde6013ad0e6fec6fe6d23be3972c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 24/79] fix: accept a register declaration without a blank
 before its size

---
 src/mqt/qudits/quantum_circuit/qasm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 638e673..9c7ce57 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -175,7 +175,7 @@ class QASM:
             "comment": re.compile(r"^//"),
             "comment_start": re.compile(r"/\*"),
             "comment_end": re.compile(r"\*/"),
-            "qreg": re.compile(r"qreg\s+(\w+)\s+(\[\s*\d+\s*\])(?:\s*\[(\d+(?:,\s*\d+)*)\])?;"),
+            "qreg": re.compile(r"qreg\s+(\w+)\s*(\[\s*\d+\s*\])(?:\s*\[(\d+(?:,\s*\d+)*)\])?;"),
             "creg": re.compile(r"creg\s+(\w+)\s*\[\s*(\d+)\s*\]\s*;"),
             # "ctrl_id":       re.compile(r"\s+(\w+)\s*(\[\s*\other_size+\s*\])\s*(\s*\w+\s*\[\other_size+\])*\s*"),
             "qreg_indexing": re.compile(r"\s*(\w+)\s*(\[\s*\d+\s*\])"),
-- 
2.43.0


From 604661c7d11fd353e88afcc98e6f0dfe68d197af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 25/79] fix: logical local passes emit the gate itself and keep
 the backend's placement

---
 .../log_local_adaptive_decomp.py                         | 9 +++------
 .../log_local_qr_decomp.py                               | 4 ++--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
index 93dee68..59c6e07 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
@@ -40,13 +40,10 @@ class LogLocAdaPass(CompilerPass):
             gate, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions)
         )
 
-        (
-            matrices_decomposed,
-            _best_cost,
-            self.backend.energy_level_graphs[cast(int, gate.target_qudits)],
-        ) = adaptive.execute()
+        # logical levels keep their placement
+        matrices_decomposed, _best_cost, _final_graph = adaptive.execute()
 
-        return matrices_decomposed
+        return [op.dag() for op in reversed(matrices_decomposed)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
index 170ac82..4710291 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
@@ -30,7 +30,7 @@ class LogLocQRPass(CompilerPass):
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
         qr = QrDecomp(gate, energy_graph_i, not_stand_alone=False)
         decomp, _algorithmic_cost, _total_cost = qr.execute()
-        return decomp
+        return [op.dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
@@ -78,7 +78,7 @@ class QrDecomp:
                             self.gate.parent_circuit,
                             "VRz",
                             cast(int, self.gate.target_qudits),
-                            [self.graph.nodes[i], theta_z],
+                            [i, theta_z],
                             cast(int, self.gate.dimensions),
                         )  # (thetaZ, self.graph.nodes[i]['lpmap'], dimension) # [self.graph.nodes[i]["lpmap"], thetaZ],
                         decomp.append(phase_gate)
-- 
2.43.0


From 29c72ebf0610aedd4238d9a74aaca4470175a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 26/79] fix: whole-circuit entangling pass emits each gate's
 sequence in circuit order

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py     | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index f03a688..0a491f9 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -43,7 +43,6 @@ class LogEntQRCEXPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.TWO:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans.reverse()
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
-- 
2.43.0


From 59e01284087b9499b86e965fe67e315a9b3f08fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 27/79] fix: decompose two-qudit gates whose targets are listed
 in descending order

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index 0a491f9..755dc56 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -55,8 +55,8 @@ class EntangledQRCEX:
     def __init__(self, gate: Gate) -> None:
         self.gate: Gate = gate
         self.circuit: QuantumCircuit = gate.parent_circuit
-        self.dimensions: list[int] = itemgetter(*gate.reference_lines)(self.circuit.dimensions)
-        self.qudit_indices: list[int] = gate.reference_lines
+        self.qudit_indices: list[int] = sorted(gate.reference_lines)  # the order of the matrix, whatever the targets'
+        self.dimensions: list[int] = itemgetter(*self.qudit_indices)(self.circuit.dimensions)
         self.u: NDArray = gate.to_matrix(identities=0)
         self.decomposition: list[Gate] = []
 
-- 
2.43.0


From 09d0a959bba909709a53ce0f3fbcd8b214bd9873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 28/79] fix: physical entangling pass maps logical levels to
 their physical places

---
 .../twodit/entanglement_qr/phy_ent_qr_cex_decomp.py        | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 5a45ad4..0a61aa7 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -58,12 +58,9 @@ class PhyEntQRCEXPass(CompilerPass):
 
         eqr = EntangledQRCEX(gate)
         decomp, _countcr, _countpsw = eqr.execute()
-        perm_0_d_seq.extend(perm_1_d_seq)
-        perm_0_d_seq.extend(decomp)
-        perm_0_d_seq.extend(perm_0_seq)
-        perm_0_d_seq.extend(perm_1_seq)
+        logical = [copy.copy(op).dag() for op in reversed(decomp)]  # a gate may occur repeatedly
 
-        return [copy.copy(op).dag() for op in reversed(decomp)]  # a gate may occur repeatedly
+        return [*perm_0_d_seq, *perm_1_d_seq, *logical, *perm_0_seq, *perm_1_seq]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From f32929f0c99087c1c925cdd5d3760416e022c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 29/79] fix: physical entangling pass keeps the phase and the
 adjoint of a cx gate

---
 .../twodit/entanglement_qr/phy_ent_qr_cex_decomp.py         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 0a61aa7..493e920 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -4,6 +4,8 @@ import copy
 import gc
 from typing import TYPE_CHECKING, cast
 
+import numpy as np
+
 from mqt.qudits.compiler import CompilerPass
 from mqt.qudits.compiler.onedit import PhyLocQRPass
 from mqt.qudits.compiler.twodit.entanglement_qr import EntangledQRCEX
@@ -41,9 +43,9 @@ class PhyEntQRCEXPass(CompilerPass):
             if new_la < new_lb:
                 new_parameters = [new_la, new_lb, new_ctrl_lev, gate.phi]
             else:
-                new_parameters = [new_lb, new_la, new_ctrl_lev, gate.phi]
+                new_parameters = [new_lb, new_la, new_ctrl_lev, float(np.mod(-gate.phi, 2 * np.pi))]
             tcex = CEx(parent_circ, "CEx_t" + str(target_qudits), target_qudits, new_parameters, dimensions, None)
-            return [tcex]
+            return [tcex.dag() if gate.dagger else tcex]
 
         perm_0 = Perm(gate.parent_circuit, "Pm_ent_0", target_qudits[0], lp_map_0, dimensions[0])
         perm_1 = Perm(gate.parent_circuit, "Pm_ent_1", target_qudits[1], lp_map_1, dimensions[1])
-- 
2.43.0


From 53adebccc5fe8ec04fc328afefac5d08190bfa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 30/79] fix: adaptive physical pass leaves its change of
 placement and phases after the gate

---
 .../phy_local_adaptive_decomp.py                           | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index 6318bf3..83c8157 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import contextlib
+import copy
 import gc
 import itertools
 from typing import TYPE_CHECKING, cast
@@ -41,6 +42,10 @@ class PhyLocAdaPass(CompilerPass):
     def transpile_gate(self, gate: Gate) -> list[Gate]:
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
 
+        # A decomposition undoes the gate it is given. Decomposing the adjoint yields the gate's own sequence, whose
+        # change of placement and pending phases are those after the gate, as the gates that follow expect them.
+        gate = copy.copy(gate).dag()
+
         qr = PhyQrDecomp(gate, energy_graph_i)
 
         _decomp, algorithmic_cost, total_cost = qr.execute()
@@ -51,7 +56,7 @@ class PhyLocAdaPass(CompilerPass):
         (matrices_decomposed, _best_cost, new_energy_level_graph) = adaptive.execute()
 
         self.backend.energy_level_graphs[cast(int, gate.target_qudits)] = new_energy_level_graph
-        return [op.dag() for op in reversed(matrices_decomposed)]
+        return matrices_decomposed
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit: QuantumCircuit = circuit
-- 
2.43.0


From b32dcca5ffb2d8bd55c0aea897ea19e763c078bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 31/79] fix: routing pulses do not move the pending phases of
 earlier gates

---
 .../phy_local_adaptive_decomp.py              | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index 83c8157..65141b4 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -261,19 +261,27 @@ class PhyAdaptiveDecomposition:
                     physical_rotation = gate_chain_condition(pi_pulses_routing, physical_rotation)
                     physical_rotation = graph_rule_ongate(physical_rotation, new_placement)
 
-                    p_backs = [
-                        gates.R(
-                            self.circuit,
-                            "R",
-                            self.qudit_index,
-                            [ppulse.lev_a, ppulse.lev_b, ppulse.theta, -ppulse.phi],
-                            self.dimension,
-                        )
-                        for ppulse in pi_pulses_routing
-                    ]
-
-                    for p_back in p_backs:
-                        graph_rule_update(p_back, new_placement)
+                    if pi_pulses_routing:
+                        # Phases pending from earlier gates stay on their levels, the pulses are adapted to them;
+                        # only the signs of the pulses themselves travel with the populations.
+                        pending = dict(new_placement.nodes(data="phase_storage"))
+                        for node in pending:
+                            new_placement.nodes[node]["phase_storage"] = 0.0
+
+                        for ppulse in pi_pulses_routing:
+                            p_back = gates.R(
+                                self.circuit,
+                                "R",
+                                self.qudit_index,
+                                [ppulse.lev_a, ppulse.lev_b, ppulse.theta, np.pi / 2],
+                                self.dimension,
+                            )
+                            graph_rule_update(p_back, new_placement)
+
+                        for node, phase in pending.items():
+                            new_placement.nodes[node]["phase_storage"] = new_mod(
+                                new_placement.nodes[node]["phase_storage"] + phase
+                            )
 
                     current_root.add(
                         new_key,
-- 
2.43.0


From c89854cde5caf165245ed1f1d64e8b5a11500fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 32/79] fix: remap_result reads each logical level at its
 physical place

---
 src/mqt/qudits/visualisation/plot_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index 1bc688f..6143b86 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -23,7 +23,7 @@ def remap_result(
         permutation = np.eye(circuit.dimensions[0])[:, circuit.mappings[0]]
         for i in range(1, len(circuit.mappings)):
             permutation = np.kron(permutation, np.eye(circuit.dimensions[i])[:, circuit.mappings[i]])
-        return new_result @ np.linalg.inv(permutation)
+        return new_result @ permutation
     return new_result
 
 
-- 
2.43.0


From 2577ba6f091eae80301ee0a11d75f4ad297132c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 33/79] fix: a compiled circuit does not change the placement
 later circuits start from

---
 src/mqt/qudits/compiler/dit_compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index b912752..43243a1 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -102,6 +102,7 @@ class QuditCompiler:
     def compile_O2(backend: Backend, circuit: QuantumCircuit) -> QuantumCircuit:  # noqa: N802
         phyent = PhyEntQRCEXPass(backend)
 
+        initial_graphs = list(backend.energy_level_graphs)
         lanes = Lanes(circuit)
         new_instructions = []
         for gate in circuit.instructions:
@@ -118,5 +119,7 @@ class QuditCompiler:
         for i, graph in enumerate(backend.energy_level_graphs):
             if i < circuit.num_qudits:
                 mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
+        # the next circuit starts from the backend's own placement
+        backend.energy_level_graphs[:] = initial_graphs
         transpiled_circuit.set_mapping(mappings)
         return transpiled_circuit.set_instructions(new_instructions)
-- 
2.43.0


From ff12c861d135a6bd2d96c03ea22e304c84198693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 34/79] fix: compile() as well leaves the backend's placement
 as it was

---
 src/mqt/qudits/compiler/dit_compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index 43243a1..c027511 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -37,6 +37,7 @@ class QuditCompiler:
     def compile(self, backend: Backend, circuit: QuantumCircuit, passes_names: list[str]) -> QuantumCircuit:
         passes_dict = {}
         new_instr = []
+        initial_graphs = list(backend.energy_level_graphs)
         # Instantiate and execute created classes
         for compiler_pass_name in passes_names:
             compiler_pass = self.passes_enabled[compiler_pass_name]
@@ -60,6 +61,8 @@ class QuditCompiler:
         for i, graph in enumerate(backend.energy_level_graphs):
             if i < circuit.num_qudits:
                 mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
+        # the next circuit starts from the backend's own placement
+        backend.energy_level_graphs[:] = initial_graphs
         transpiled_circuit.set_mapping(mappings)
         return transpiled_circuit.set_instructions(new_instr)
 
-- 
2.43.0


From 21b53dcbcb3e5572eff135a5af261fb6dce9557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 35/79] fix: entangling pass compiles a controlled gate whose
 control is on a distant line

---
 .../twodit/entanglement_qr/log_ent_qr_cex_decomp.py        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index 755dc56..53c2ff1 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -57,7 +57,12 @@ class EntangledQRCEX:
         self.circuit: QuantumCircuit = gate.parent_circuit
         self.qudit_indices: list[int] = sorted(gate.reference_lines)  # the order of the matrix, whatever the targets'
         self.dimensions: list[int] = itemgetter(*self.qudit_indices)(self.circuit.dimensions)
-        self.u: NDArray = gate.to_matrix(identities=0)
+        # a control on a distant line brings the lines in between, which the gate leaves alone, into the matrix
+        dim_0, dim_1 = self.dimensions
+        u = gate.to_matrix(identities=0)
+        between = len(u) // (dim_0 * dim_1)
+        u = u.reshape(dim_0, between, dim_1, dim_0, between, dim_1)[:, 0, :, :, 0, :]
+        self.u: NDArray = u.reshape(dim_0 * dim_1, dim_0 * dim_1)
         self.decomposition: list[Gate] = []
 
     @staticmethod
-- 
2.43.0


From 79d69f8784c25915df284c344c69a2a2678df6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 36/79] fix: a circuit that cannot be compiled leaves the
 backend's placement as it was

---
 src/mqt/qudits/compiler/dit_compiler.py | 64 +++++++++++++------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index c027511..2159813 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -48,21 +48,23 @@ class QuditCompiler:
                 passes_dict[GateTypes.TWO] = decomposition
             elif "Multi" in str(compiler_pass):
                 passes_dict[GateTypes.MULTI] = decomposition
-        for gate in circuit.instructions:
-            decomposer = typing.cast(Optional[CompilerPass], passes_dict.get(gate.gate_type))
-            if decomposer is not None:
-                new_instructions = decomposer.transpile_gate(gate)
-                new_instr.extend(new_instructions)
-            else:
-                new_instr.append(gate)
+        try:
+            for gate in circuit.instructions:
+                decomposer = typing.cast(Optional[CompilerPass], passes_dict.get(gate.gate_type))
+                if decomposer is not None:
+                    new_instructions = decomposer.transpile_gate(gate)
+                    new_instr.extend(new_instructions)
+                else:
+                    new_instr.append(gate)
 
-        transpiled_circuit = circuit.copy()
-        mappings = []
-        for i, graph in enumerate(backend.energy_level_graphs):
-            if i < circuit.num_qudits:
-                mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
-        # the next circuit starts from the backend's own placement
-        backend.energy_level_graphs[:] = initial_graphs
+            transpiled_circuit = circuit.copy()
+            mappings = []
+            for i, graph in enumerate(backend.energy_level_graphs):
+                if i < circuit.num_qudits:
+                    mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
+        finally:
+            # the next circuit starts from the backend's own placement, also after a circuit that cannot be compiled
+            backend.energy_level_graphs[:] = initial_graphs
         transpiled_circuit.set_mapping(mappings)
         return transpiled_circuit.set_instructions(new_instr)
 
@@ -108,21 +110,23 @@ class QuditCompiler:
         initial_graphs = list(backend.energy_level_graphs)
         lanes = Lanes(circuit)
         new_instructions = []
-        for gate in circuit.instructions:
-            ins: list[Gate] = []
-            if gate.gate_type is GateTypes.SINGLE:
-                phyloc = PhyLocAdaPass(backend, lanes.next_is_local(gate))
-                ins = phyloc.transpile_gate(gate)
-                new_instructions.extend(ins)
-            else:
-                ins = phyent.transpile_gate(gate)
-                new_instructions.extend(ins)
-        transpiled_circuit = circuit.copy()
-        mappings = []
-        for i, graph in enumerate(backend.energy_level_graphs):
-            if i < circuit.num_qudits:
-                mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
-        # the next circuit starts from the backend's own placement
-        backend.energy_level_graphs[:] = initial_graphs
+        try:
+            for gate in circuit.instructions:
+                ins: list[Gate] = []
+                if gate.gate_type is GateTypes.SINGLE:
+                    phyloc = PhyLocAdaPass(backend, lanes.next_is_local(gate))
+                    ins = phyloc.transpile_gate(gate)
+                    new_instructions.extend(ins)
+                else:
+                    ins = phyent.transpile_gate(gate)
+                    new_instructions.extend(ins)
+            transpiled_circuit = circuit.copy()
+            mappings = []
+            for i, graph in enumerate(backend.energy_level_graphs):
+                if i < circuit.num_qudits:
+                    mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
+        finally:
+            # the next circuit starts from the backend's own placement, also after a circuit that cannot be compiled
+            backend.energy_level_graphs[:] = initial_graphs
         transpiled_circuit.set_mapping(mappings)
         return transpiled_circuit.set_instructions(new_instructions)
-- 
2.43.0


From ba5950ec622c4eaeab06a540400977375c65ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 37/79] fix: a gate object applied repeatedly is not lost or
 misplaced by the lanes

---
 src/mqt/qudits/core/lanes.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/core/lanes.py b/src/mqt/qudits/core/lanes.py
index 0e7b1e2..ae2d01d 100644
--- a/src/mqt/qudits/core/lanes.py
+++ b/src/mqt/qudits/core/lanes.py
@@ -62,10 +62,11 @@ class Lanes:
         for line in sorted(self.index_dict.keys()):  # Iterate over keys in sorted order
             for gate_tuple in self.index_dict[line]:
                 gate = gate_tuple[1]
-                obj_id = id(gate)
-                if obj_id not in seen_ids:
+                # a gate on several lines stands once in each of their lanes; the same gate object may also be applied again
+                occurrence = (gate_tuple[0], id(gate))
+                if gate.gate_type == GateTypes.SINGLE or occurrence not in seen_ids:
                     combined_list.append(gate_tuple)
-                    seen_ids.add(obj_id)
+                    seen_ids.add(occurrence)
 
         sorted_list = sorted(combined_list, key=operator.itemgetter(0))
         instructions_as_circuit: list[Gate] = [gate_tuple[1] for gate_tuple in sorted_list]
@@ -98,12 +99,16 @@ class Lanes:
             key: [sublist for sublist in value if sublist] for key, value in consecutive_groups.items()
         }
 
-        # Build the index
+        # Build the index; of a gate object that is applied repeatedly, an occurrence that ends its group counts
+        ends_group: set[Gate] = set()
         for line_number, line_groups in consecutive_groups.items():
             for group_number, group in enumerate(line_groups):
                 for gate_number, gate_tuple in enumerate(group):
                     gate = gate_tuple[1]
-                    self.fast_lookup[gate] = (line_number, group_number, gate_number)
+                    if gate not in ends_group:
+                        self.fast_lookup[gate] = (line_number, group_number, gate_number)
+                    if gate.gate_type == GateTypes.SINGLE and gate_number == len(group) - 1:
+                        ends_group.add(gate)
 
         return consecutive_groups
 
-- 
2.43.0


From 9b446b25e09f98f51f048407adf555b1608e8fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 38/79] fix: phase removal keeps controlled phases, which act
 on their control lines too

---
 .../local_phases_transpilation/remove_phase_rotations.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
index 91a1d64..7fa34f6 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
@@ -40,6 +40,10 @@ class ZRemovalOptPass(CompilerPass):
                 break
 
             target_qudits = instruction.target_qudits
+            if instruction.control_info["controls"] is not None:
+                # a controlled phase also acts on its control lines
+                seen_target_qudits.update(instruction.reference_lines)
+                continue
             if isinstance(target_qudits, list):
                 # If target_qudits is a list, add each element to the set and
                 # continue to the next iteration because we work only with single gates
-- 
2.43.0


From a47e675baa186e0e90d9d9a8afa6c78b5d13a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 39/79] fix: phase propagation keeps other gates, their order
 and adjoint rotations

---
 .../propagate_virtrz.py                       | 40 ++++++++++++-------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
index 434332c..8dff234 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import copy
-from typing import TYPE_CHECKING, Union, cast
+from typing import TYPE_CHECKING, cast
 
 from ....quantum_circuit import gates
 from ... import CompilerPass
@@ -53,17 +53,21 @@ class ZPropagationOptPass(CompilerPass):
                     new_phi = pi_mod(
                         line[gate_index].phi - z_angles[line[gate_index].lev_a] + z_angles[line[gate_index].lev_b]
                     )
+                theta = line[gate_index].theta
                 list_of_x_yrots.append(
                     gates.R(
                         circuit,
                         "R",
                         qudit_index,
-                        [line[gate_index].lev_a, line[gate_index].lev_b, line[gate_index].theta, new_phi],
+                        [line[gate_index].lev_a, line[gate_index].lev_b, -theta if line[gate_index].dagger else theta, new_phi],
                         dimension,
                     )
                 )
             elif isinstance(line[gate_index], VirtRz):  # except AttributeError:
-                z_angles[line[gate_index].lev_a] = pi_mod(z_angles[line[gate_index].lev_a] + line[gate_index].phi)
+                phi = line[gate_index].phi
+                z_angles[line[gate_index].lev_a] = pi_mod(
+                    z_angles[line[gate_index].lev_a] + (-phi if line[gate_index].dagger else phi)
+                )
         if back:
             list_of_x_yrots.reverse()
 
@@ -106,20 +110,26 @@ class ZPropagationOptPass(CompilerPass):
 
     def remove_z(self, original_circuit: QuantumCircuit, back: bool = True) -> QuantumCircuit:
         circuit = original_circuit.copy()
-        new_instructions: list[Gate] = copy.deepcopy(circuit.instructions)
         intervals: list[tuple[int, ...]] = self.find_intervals_with_same_target_qudits(circuit.instructions)
 
-        for interval in intervals:
-            if len(interval) > 1:
-                from ....quantum_circuit.gates import R, VirtRz
-
-                sequence = cast(list[Union[R, VirtRz]], circuit.instructions[interval[0] : interval[-1] + 1])
-                fixed_seq: list[R] = []
-                z_tail: list[VirtRz] = []
-                fixed_seq, z_tail = self.propagate_z(circuit, sequence, back)
+        from ....quantum_circuit.gates import R, VirtRz
 
-                combined_seq = z_tail + fixed_seq if back else fixed_seq + z_tail
-                new_instructions[interval[0] : interval[-1] + 1] = []
-                new_instructions.extend(combined_seq)
+        old_instructions = copy.deepcopy(circuit.instructions)
+        new_instructions: list[Gate] = []
+        for interval in intervals:
+            # phases move through runs of rotations and virtual phases, other gates stay where they are
+            sequence: list[R | VirtRz] = []
+            for instruction in [*old_instructions[interval[0] : interval[-1] + 1], None]:
+                if isinstance(instruction, (R, VirtRz)) and instruction.control_info["controls"] is None:
+                    sequence.append(instruction)
+                    continue
+                if len(sequence) > 1:
+                    fixed_seq, z_tail = self.propagate_z(circuit, sequence, back)
+                    new_instructions.extend([*z_tail, *fixed_seq] if back else [*fixed_seq, *z_tail])
+                else:
+                    new_instructions.extend(sequence)
+                sequence = []
+                if instruction is not None:
+                    new_instructions.append(instruction)
 
         return circuit.set_instructions(new_instructions)
-- 
2.43.0


From 94285753732a68d7860ac921e980d09aadb0b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 40/79] fix: replacing gates in a lane removes the gates at the
 given places

---
 src/mqt/qudits/core/lanes.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mqt/qudits/core/lanes.py b/src/mqt/qudits/core/lanes.py
index ae2d01d..4f5a14d 100644
--- a/src/mqt/qudits/core/lanes.py
+++ b/src/mqt/qudits/core/lanes.py
@@ -121,10 +121,7 @@ class Lanes:
 
         # Remove objects within the specified interval [start_index, end_index]
         ordering_id = gates_of_line[start_index][0]
-        objects_to_remove = [gates_of_line[i] for i in range(start_index, min(end_index + 1, len(gates_of_line)))]
-
-        for obj in objects_to_remove:
-            gates_of_line.remove(obj)
+        del gates_of_line[start_index : end_index + 1]
 
         # Add new_gate at the start_index
         gates_of_line.insert(start_index, (ordering_id, new_gate))
-- 
2.43.0


From e508e594647f63d5b693c2cb537774e21b56fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 41/79] fix: asking a decomposition tree for its size does not
 make it forget its root

---
 src/mqt/qudits/core/dfs_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/core/dfs_tree.py b/src/mqt/qudits/core/dfs_tree.py
index 521a40d..5c0941a 100644
--- a/src/mqt/qudits/core/dfs_tree.py
+++ b/src/mqt/qudits/core/dfs_tree.py
@@ -194,8 +194,8 @@ class NAryTree:
 
     @property
     def total_size(self) -> int:
-        self.size = self.size_refresh(self.root)
-        return self.size + 1
+        self.size = self.size_refresh(self.root) + 1
+        return self.size
 
     def print_tree(self, node: Node, str_aux: str) -> str:
         f = ""
-- 
2.43.0


From eecb9cd456bd674bea39042d5f0884eaf4e98dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 42/79] fix: prepare states whose occupied levels share a
 branch but level zero is empty

---
 .../qudits/compiler/state_compilation/state_preparation.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/state_compilation/state_preparation.py b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
index 3baa55b..0e28260 100644
--- a/src/mqt/qudits/compiler/state_compilation/state_preparation.py
+++ b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
@@ -161,8 +161,10 @@ class StatePrep:
                     )
         else:
             controls_track = copy.deepcopy(controls)
+            # the branch all occupied levels share; an empty level may come before it
+            shared = next(i for i, child in enumerate(node.children) if abs(child.weight) != 0.0)
             self.synthesis(
-                labels, cardinalities, node.children[node.children_index[0]], circuit_meta, controls_track, depth + 1
+                labels, cardinalities, node.children[node.children_index[shared]], circuit_meta, controls_track, depth + 1
             )
 
     def compile_state(self) -> QuantumCircuit:
-- 
2.43.0


From 851748b076259e852deb881c4141dd4cfd7a7ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 43/79] fix: refuse a state vector whose length does not fit
 the circuit

---
 .../qudits/compiler/state_compilation/state_preparation.py    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qudits/compiler/state_compilation/state_preparation.py b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
index 0e28260..7eaaeb2 100644
--- a/src/mqt/qudits/compiler/state_compilation/state_preparation.py
+++ b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import copy
+import math
 import typing
 
 import numpy as np
@@ -170,6 +171,9 @@ class StatePrep:
     def compile_state(self) -> QuantumCircuit:
         final_state = self.state
         cardinalities = self.circuit.dimensions
+        if len(final_state) != math.prod(cardinalities):
+            msg = "The state needs one amplitude for each basis state of the circuit."
+            raise ValueError(msg)
         labels = list(range(len(self.circuit.dimensions)))
         ops: list[Operation] = []
         decision_tree, _number_of_nodes = create_decision_tree(labels, cardinalities, final_state)
-- 
2.43.0


From 2df13c124fc849505abbc654b274c816d284539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 44/79] fix: noise models keep their own copy of every declared
 noise and refuse declarations as a whole

---
 .../qudits/simulation/noise_tools/noise.py    | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noise.py b/src/mqt/qudits/simulation/noise_tools/noise.py
index be301c1..27fd46d 100644
--- a/src/mqt/qudits/simulation/noise_tools/noise.py
+++ b/src/mqt/qudits/simulation/noise_tools/noise.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import copy
+
 
 class Noise:
     """Represents a noise model with depolarizing and dephasing probabilities."""
@@ -76,8 +78,14 @@ class SubspaceNoise:
         self.subspace_w_probs[lev_a, lev_b] = noise
 
     def add_noises(self, noises: dict[tuple[int, int], Noise]) -> None:
-        for tup, noise in noises.items():
-            self.add_noise(tup[0], tup[1], noise)
+        # a refused subspace leaves the noise as it was
+        before = self.subspace_w_probs.copy()
+        try:
+            for tup, noise in noises.items():
+                self.add_noise(tup[0], tup[1], noise)
+        except ValueError:
+            self.subspace_w_probs = before
+            raise
 
 
 class NoiseModel:
@@ -94,20 +102,22 @@ class NoiseModel:
             gates (List[str]): List of gate names to apply the noise to.
             mode (Union[Tuple[int, ...], Literal["local", "all", "nonlocal", "target", "control"]]): The mode or qudit configuration for the noise.
         """
+        # every gate keeps its own copy: extending the noise of one gate must not change the others or the caller's object
+        updated: dict[str, Noise | SubspaceNoise] = {}
         for gate in gates:
-            if gate not in self.quantum_errors:
-                self.quantum_errors[gate] = {}
-            if mode not in self.quantum_errors[gate]:
-                self.quantum_errors[gate][mode] = noise  # empty case
+            existing_instance = updated.get(gate, self.quantum_errors.get(gate, {}).get(mode))
+            if existing_instance is None:
+                updated[gate] = copy.deepcopy(noise)  # empty case
             elif isinstance(noise, Noise):
                 msg = "Mathematical noise has been defined multiple times!"
                 raise ValueError(msg)
             else:
-                existing_instance = self.quantum_errors[gate][mode]
                 assert isinstance(existing_instance, SubspaceNoise)
-                existing_instance.add_noises(
-                    noise.subspace_w_probs
-                )  # add the noise info to the existing SubspaceNoise instance
+                extended = copy.deepcopy(existing_instance)
+                extended.add_noises(noise.subspace_w_probs)  # add the noise info to the existing noise
+                updated[gate] = extended
+        for gate, gate_noise in updated.items():
+            self.quantum_errors.setdefault(gate, {})[mode] = gate_noise
 
     def add_quantum_error_locally(self, noise: Noise | SubspaceNoise, gates: list[str]) -> None:
         """Add a quantum error locally to all qudits for specified gates."""
-- 
2.43.0


From 599ce9fc583f71fd5f44d48399b7a5712a2446ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 45/79] fix: target and control noise of gates with attached
 controls acts on the right lines

---
 .../qudits/simulation/noise_tools/noisy_circuit_factory.py   | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index 5334c6d..2333ff2 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -141,8 +141,7 @@ class NoisyCircuitFactory:
 
     def _get_control_qudits(self, instruction: Gate) -> list[int]:
         self._validate_two_qudit_gate(instruction)
-        qudits_targeted = cast(list[int], instruction.target_qudits)
-        return qudits_targeted[:1]
+        return instruction.reference_lines[:1]
 
     @staticmethod
     def _get_target_qudits(instruction: Gate) -> list[int]:
@@ -159,7 +158,7 @@ class NoisyCircuitFactory:
         """
         if instruction.gate_type != GateTypes.SINGLE:
             qudits_targeted = instruction.reference_lines
-            return qudits_targeted[1:]
+            return qudits_targeted[max(1, len(instruction.get_control_lines)) :]
 
         return [cast(int, instruction.target_qudits)]
 
-- 
2.43.0


From f96af99abfe1a2c9f212c02a787fb0701290fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 46/79] fix: the shots of a noisy simulation draw independent
 random numbers

---
 .../qudits/simulation/backends/stochastic_sim.py   | 14 +++-----------
 .../noise_tools/noisy_circuit_factory.py           |  6 +-----
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/stochastic_sim.py b/src/mqt/qudits/simulation/backends/stochastic_sim.py
index a3f78e4..8c8603f 100644
--- a/src/mqt/qudits/simulation/backends/stochastic_sim.py
+++ b/src/mqt/qudits/simulation/backends/stochastic_sim.py
@@ -1,8 +1,6 @@
 from __future__ import annotations
 
 import multiprocessing as mp
-import os
-import time
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -18,16 +16,10 @@ if TYPE_CHECKING:
     from .backendv2 import Backend
 
 
-def generate_seed() -> int:
-    """Generate a random seed for numpy random generator."""
-    current_time = int(time.time() * 1000)
-    return hash((os.getpid(), current_time)) % 2**32
-
-
 def measure_state(vector_data: NDArray[np.complex128]) -> int:
     """Measure the quantum state and return the result."""
     probabilities = np.abs(vector_data.ravel()) ** 2
-    rng = np.random.default_rng(generate_seed())
+    rng = np.random.default_rng()  # seeded by the system: shots must not share random numbers
     return rng.choice(len(probabilities), p=probabilities)
 
 
@@ -50,8 +42,8 @@ def stochastic_simulation(backend: Backend, circuit: QuantumCircuit) -> NDArray
 
     with mp.Pool(processes=num_processes) as pool:
         if isinstance(backend, TNSim):
-            factory = NoisyCircuitFactory(noise_model, circuit)
-            args_tn = [(backend, factory) for _ in range(shots)]
+            # one factory per shot: the workers receive copies, which would all draw the same random numbers
+            args_tn = [(backend, NoisyCircuitFactory(noise_model, circuit)) for _ in range(shots)]
             results = pool.map(stochastic_execution_tn, args_tn)
         elif isinstance(backend, MISim):
             args_misim = [(backend, circuit, noise_model) for _ in range(shots)]
diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index 2333ff2..5728266 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -1,8 +1,6 @@
 from __future__ import annotations
 
 import copy
-import os
-import time
 from functools import partial
 from itertools import product
 from typing import TYPE_CHECKING, cast
@@ -31,9 +29,7 @@ class NoisyCircuitFactory:
 
     @staticmethod
     def _initialize_rng() -> Generator:
-        current_time = int(time.time() * 1000)
-        seed = hash((os.getpid(), current_time)) % 2**32
-        return np.random.default_rng(seed)
+        return np.random.default_rng()
 
     def generate_circuit(self) -> QuantumCircuit:
         noisy_circuit = QuantumCircuit(self.circuit.num_qudits, self.circuit.dimensions, self.circuit.num_cl)
-- 
2.43.0


From 7edcb6621656816ef53da4dd90bab83851a28520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 47/79] fix: jobs created within the same millisecond get
 different ids

---
 src/mqt/qudits/simulation/jobs/job.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/simulation/jobs/job.py b/src/mqt/qudits/simulation/jobs/job.py
index f5339ad..6f13ef8 100644
--- a/src/mqt/qudits/simulation/jobs/job.py
+++ b/src/mqt/qudits/simulation/jobs/job.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
-import os
 import time
+import uuid
 from typing import TYPE_CHECKING, Any, NoReturn
 
 from ...exceptions import JobError, JobTimeoutError
@@ -36,8 +36,7 @@ class Job:
             kwargs: Any key-value metadata to associate with this job.
         """
         if job_id == "auto":
-            current_time = int(time.time() * 1000)
-            self._job_id = str(hash((os.getpid(), current_time)))
+            self._job_id = str(uuid.uuid4())
         else:
             self._job_id = job_id
         self._backend = backend
-- 
2.43.0


From 7e92d4948f498c350fb59d87dd8622060997f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 48/79] fix: a cancelled job is in a final state and ends the
 wait for one

---
 src/mqt/qudits/simulation/jobs/job.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/simulation/jobs/job.py b/src/mqt/qudits/simulation/jobs/job.py
index 6f13ef8..8718813 100644
--- a/src/mqt/qudits/simulation/jobs/job.py
+++ b/src/mqt/qudits/simulation/jobs/job.py
@@ -5,7 +5,7 @@ import uuid
 from typing import TYPE_CHECKING, Any, NoReturn
 
 from ...exceptions import JobError, JobTimeoutError
-from .jobstatus import JobStatus
+from .jobstatus import JOB_FINAL_STATES, JobStatus
 
 if TYPE_CHECKING:
     from collections.abc import Callable
@@ -66,13 +66,13 @@ class Job:
         return self.status() == JobStatus.CANCELLED
 
     def in_final_state(self) -> bool:
-        """Return whether the job is in a final job state such as DONE or ERROR."""
-        return self.status() in {JobStatus.DONE, JobStatus.ERROR}
+        """Return whether the job is in a final job state such as DONE, CANCELLED or ERROR."""
+        return self.status() in JOB_FINAL_STATES
 
     def wait_for_final_state(
         self, timeout: float | None = None, wait: float = 5, callback: Callable[[str, str, Job], None] | None = None
     ) -> None:
-        """Poll the job status until it progresses to a final state such as DONE or ERROR.
+        """Poll the job status until it progresses to a final state such as DONE, CANCELLED or ERROR.
 
         Args:
             timeout: Seconds to wait for the job. If None, wait indefinitely.
@@ -86,7 +86,7 @@ class Job:
             return
         start_time = time.time()
         status = self.status()
-        while status not in {JobStatus.DONE, JobStatus.ERROR}:
+        while status not in JOB_FINAL_STATES:
             elapsed_time = time.time() - start_time
             if timeout is not None and elapsed_time >= timeout:
                 msg = f"Timeout while waiting for job {self.job_id()}."
-- 
2.43.0


From 12e7203705a9533fd35ad0f9aa1cb0f606c6e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 49/79] fix: set_options accepts the options of a backend

---
 src/mqt/qudits/simulation/backends/backendv2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/simulation/backends/backendv2.py b/src/mqt/qudits/simulation/backends/backendv2.py
index e360034..21c759c 100644
--- a/src/mqt/qudits/simulation/backends/backendv2.py
+++ b/src/mqt/qudits/simulation/backends/backendv2.py
@@ -54,7 +54,7 @@ class Backend(ABC):
 
     def set_options(self, **fields: Unpack[Backend.DefaultOptions]) -> None:
         for field in fields:
-            if not hasattr(self._options, field):
+            if field not in Backend.DefaultOptions.__annotations__:
                 msg = f"Options field '{field}' is not valid for this backend"
                 raise AttributeError(msg)
         self._options.update(fields)
-- 
2.43.0


From 6bc6d0e114fcf366e49b115507af7b2ffe491458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 50/79] fix: a noise model given when constructing a machine
 backend is used

---
 .../qudits/simulation/backends/fake_backends/fake_traps2six.py | 3 ++-
 .../simulation/backends/fake_backends/fake_traps2three.py      | 3 ++-
 .../qudits/simulation/backends/fake_backends/fake_traps3six.py | 3 ++-
 src/mqt/qudits/simulation/backends/innsbruck_01.py             | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2six.py b/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2six.py
index 1fea81a..3a5e642 100644
--- a/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2six.py
+++ b/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2six.py
@@ -24,7 +24,8 @@ class FakeIonTraps2Six(TNSim):
         super().__init__(
             provider=provider, name="FakeTrap2Six", description="A Fake backend of an ion trap qudit machine", **fields
         )
-        self.options["noise_model"] = self.__noise_model()
+        if "noise_model" not in fields:
+            self.options["noise_model"] = self.__noise_model()
         self.author = "<Kevin Mato>"
         self._energy_level_graphs: list[LevelGraph] = []
 
diff --git a/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2three.py b/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2three.py
index 7bc8be8..b82f7bf 100644
--- a/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2three.py
+++ b/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2three.py
@@ -31,7 +31,8 @@ class FakeIonTraps2Trits(TNSim):
             description="A Fake backend of an ion trap qudit machine",
             **fields,
         )
-        self.options["noise_model"] = self.__noise_model()
+        if "noise_model" not in fields:
+            self.options["noise_model"] = self.__noise_model()
         self.author = "<Kevin Mato>"
         self._energy_level_graphs: list[LevelGraph] = []
 
diff --git a/src/mqt/qudits/simulation/backends/fake_backends/fake_traps3six.py b/src/mqt/qudits/simulation/backends/fake_backends/fake_traps3six.py
index b926bdb..3ce8402 100644
--- a/src/mqt/qudits/simulation/backends/fake_backends/fake_traps3six.py
+++ b/src/mqt/qudits/simulation/backends/fake_backends/fake_traps3six.py
@@ -31,7 +31,8 @@ class FakeIonTraps3Six(TNSim):
             description="A Fake backend of an ion trap qudit machine",
             **fields,
         )
-        self.options["noise_model"] = self.__noise_model()
+        if "noise_model" not in fields:
+            self.options["noise_model"] = self.__noise_model()
         self.author = "<Kevin Mato>"
         self._energy_level_graphs: list[LevelGraph] = []
 
diff --git a/src/mqt/qudits/simulation/backends/innsbruck_01.py b/src/mqt/qudits/simulation/backends/innsbruck_01.py
index e291306..611de52 100644
--- a/src/mqt/qudits/simulation/backends/innsbruck_01.py
+++ b/src/mqt/qudits/simulation/backends/innsbruck_01.py
@@ -33,7 +33,8 @@ class Innsbruck01(Backend):
             **fields,
         )
         self.outcome: list[int] = []
-        self.options["noise_model"] = self.__noise_model()
+        if "noise_model" not in fields:
+            self.options["noise_model"] = self.__noise_model()
         self.author = "<Kevin Mato>"
         self._energy_level_graphs: list[LevelGraph] = []
 
-- 
2.43.0


From 91bef6e924b190b5f100301c83a622fba4c96284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 51/79] fix: get_density_matrix_from_counts works, also for
 more than ten levels

---
 src/mqt/qudits/visualisation/mini_quantum_information.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/visualisation/mini_quantum_information.py b/src/mqt/qudits/visualisation/mini_quantum_information.py
index be027b8..4bd2e64 100644
--- a/src/mqt/qudits/visualisation/mini_quantum_information.py
+++ b/src/mqt/qudits/visualisation/mini_quantum_information.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 import operator
 from collections import Counter
 from functools import reduce
@@ -9,8 +10,6 @@ import numpy as np
 
 from mqt.qudits.quantum_circuit.components.extensions.matrix_factory import from_dirac_to_basis
 
-from .plot_information import state_labels
-
 if TYPE_CHECKING:
     from numpy.typing import NDArray
 
@@ -24,7 +23,8 @@ def get_density_matrix_from_counts(
     number_counts = Counter(results)
     probabilities = [(number_counts[num] / len(results)) for num in range(num_kets)]
     kets: list[NDArray[complex]] = [
-        from_dirac_to_basis([int(char) for char in state], circuit.dimensions) for state in state_labels(circuit)
+        np.array(from_dirac_to_basis(list(levels), circuit.dimensions))
+        for levels in itertools.product(*(range(d) for d in circuit.dimensions))
     ]
     density_matrix: NDArray[np.complex128] = np.zeros((num_kets, num_kets))
     for k, p in zip(kets, probabilities):
-- 
2.43.0


From 27727eabb66e85d660657a00076019748be294a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 52/79] fix: states of qudits with more than ten levels get
 distinct labels

---
 src/mqt/qudits/visualisation/plot_information.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index 6143b86..85ddfed 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -87,14 +87,10 @@ def state_labels(circuit: QuantumCircuit) -> list[str]:
     logic = [list(range(d)) for d in dimensions]
     lut = [list(element) for element in itertools.product(*logic)]
 
-    string_states = []
-    for item in lut:
-        s = ""
-        for state in item:
-            s += str(state)
-        string_states.append(s)
-
-    return string_states
+    # levels with two digits need a separator, otherwise different states get the same label
+    separator = "," if max(dimensions) > 10 else ""
+
+    return [separator.join(str(state) for state in item) for item in lut]
 
 
 def plot_state(
-- 
2.43.0


From 85b0604acf3d403c2be1dddd087c876ac87c2a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 53/79] fix: the variational ansatz is the operator of the
 gates it is compiled to

---
 .../variational_twodit_compilation/ansatz/ansatz_gen.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
index 48a2ec2..deace1a 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
@@ -24,11 +24,11 @@ def prepare_ansatz(u: Gate | None, params: list[list[float]], dims: list[int]) -
         if counter == 2:
             counter = 0
 
-            unitary = np.matmul(unitary, u)
+            unitary = np.matmul(u, unitary)
 
         unitary = np.matmul(
-            unitary,
             gate_expand_to_circuit(generic_sud(params[i], dims[counter]), circuits_size=2, target=counter, dims=dims),
+            unitary,
         )
 
         counter += 1
-- 
2.43.0


From 2f0ca22fe983cb9678c0dfcdb7091a7695493d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 54/79] fix: sparsify returns the circuit of the rotations it
 optimised

---
 .../twodit/variational_twodit_compilation/sparsifier.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
index f012e91..af35cd8 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
@@ -42,11 +42,11 @@ def instantiate_rotations(circuit: QuantumCircuit, gate: Gate, params_list: list
     decomposition: list[Gate] = []
 
     decomposition.extend((
-        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[0], dims[0]), dims[0]),
-        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[1], dims[1]), dims[1]),
-        gate,
         CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[2], dims[0]), dims[0]),
         CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[3], dims[1]), dims[1]),
+        gate,
+        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[0], dims[0]), dims[0]),
+        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[1], dims[1]), dims[1]),
     ))
 
     return decomposition
-- 
2.43.0


From 4793fb817f681d82cd65d5c6ad99e4bf077febeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 55/79] fix: the time limit of one variational search does not
 outlive it

---
 .../ansatz/ansatz_solve_n_search.py                            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
index 6251756..0e51005 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
@@ -48,6 +48,7 @@ def binary_search_compile(max_num_layer: int, ansatz_type: Literal["MS", "LS", "
 def run(num_layer: int, ansatz_type: Literal["MS", "LS", "CU"]) -> tuple[float, list[float]]:
     bounds = Optimizer.return_bounds(num_layer)
 
+    Optimizer.timer_var = False
     duration = 3600 * (Optimizer.SINGLE_DIM_0 * Optimizer.SINGLE_DIM_1 / 4)
 
     result_queue: queue.Queue[tuple[float, list[float]]] = queue.Queue()
@@ -59,6 +60,8 @@ def run(num_layer: int, ansatz_type: Literal["MS", "LS", "CU"]) -> tuple[float,
     timer.start()
 
     thread.join()
+    timer.cancel()
+    timer.join()
     f, x = result_queue.get()
 
     return f, x
-- 
2.43.0


From caad1ba1cd8f0749b06c953a28670ccdbe9761b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 56/79] fix: a variational search that runs out of time counts
 as failed

---
 .../twodit/variational_twodit_compilation/opt/optimizer.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
index e0ec224..b96a6ec 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
@@ -139,4 +139,4 @@ class Optimizer:
             result_queue.put((cls.FUN_SOLUTION, cls.X_SOLUTION))
 
         except TimeoutError:
-            result_queue.put((cls.FUN_SOLUTION, cls.X_SOLUTION))
+            result_queue.put((np.inf, []))
-- 
2.43.0


From bba32251f974aae68b2ccd8a57dbc64fbb85a96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 57/79] fix: an error in the variational search is reported
 instead of waiting for ever

---
 .../ansatz/ansatz_solve_n_search.py                       | 8 +++++---
 .../variational_twodit_compilation/opt/optimizer.py       | 8 ++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
index 0e51005..80606d3 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
@@ -51,7 +51,7 @@ def run(num_layer: int, ansatz_type: Literal["MS", "LS", "CU"]) -> tuple[float,
     Optimizer.timer_var = False
     duration = 3600 * (Optimizer.SINGLE_DIM_0 * Optimizer.SINGLE_DIM_1 / 4)
 
-    result_queue: queue.Queue[tuple[float, list[float]]] = queue.Queue()
+    result_queue: queue.Queue[tuple[float, list[float]] | Exception] = queue.Queue()
 
     thread = threading.Thread(target=Optimizer.solve_anneal, args=(bounds, ansatz_type, result_queue))
     thread.start()
@@ -62,6 +62,8 @@ def run(num_layer: int, ansatz_type: Literal["MS", "LS", "CU"]) -> tuple[float,
     thread.join()
     timer.cancel()
     timer.join()
-    f, x = result_queue.get()
+    result = result_queue.get()
+    if isinstance(result, Exception):
+        raise result
 
-    return f, x
+    return result
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
index b96a6ec..e3ff36c 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
@@ -118,7 +118,7 @@ class Optimizer:
         cls,
         bounds: list[tuple[float, float]],
         ansatz_type: str,
-        result_queue: multiprocessing.Queue[tuple[float, list[float]]],
+        result_queue: multiprocessing.Queue[tuple[float, list[float]] | Exception],
     ) -> None:
         try:
             if ansatz_type == "MS":  # MS is 0
@@ -128,7 +128,8 @@ class Optimizer:
             elif ansatz_type == "CU":
                 opt = dual_annealing(cls.objective_fnc_cu, bounds=bounds)
             else:
-                opt = None
+                msg = f"Unknown ansatz type: {ansatz_type}."
+                raise ValueError(msg)
 
             x = opt.x
             fun = opt.fun
@@ -140,3 +141,6 @@ class Optimizer:
 
         except TimeoutError:
             result_queue.put((np.inf, []))
+
+        except Exception as error:  # noqa: BLE001
+            result_queue.put(error)
-- 
2.43.0


From c8521b5cb251b3c0d23c47d98e2b0a4392575782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 58/79] fix: variational compilation refuses when no search
 reached the tolerance

---
 .../variational_twodit_compilation/layered_compilation.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
index ad80b61..a9450bd 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
@@ -28,7 +28,10 @@ def variational_compile(
     dim_0, dim_1 = itemgetter(*target.reference_lines)(target.parent_circuit.dimensions)
     Primitive.set_class_variables(custom_primitive)
     Optimizer.set_class_variables(target.to_matrix(), tolerance, dim_0, dim_1, layers)
-    _best_layer, _best_error, parameters = binary_search_compile(layers, ansatz_type)
+    _best_layer, best_error, parameters = binary_search_compile(layers, ansatz_type)
+    if best_error > tolerance:
+        msg = f"No circuit of up to {layers} layers reaches the tolerance."
+        raise RuntimeError(msg)
 
     circuit = copy.deepcopy(target.parent_circuit)
     if ansatz_type == "MS":  # MS is 0
-- 
2.43.0


From 89198dc6fd9908791ebb21ad775fd81f17dd1a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 59/79] fix: variational compilation acts on the lines of its
 target

---
 .../ansatz/instantiate.py                     | 26 ++++++++++++-------
 .../layered_compilation.py                    |  9 ++++---
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
index 592ec9d..302878d 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
@@ -18,7 +18,7 @@ if typing.TYPE_CHECKING:
 
 
 def ansatz_decompose(
-    circuit: QuantumCircuit, u: Gate | None, params: list[list[float]], dims: list[int]
+    circuit: QuantumCircuit, u: Gate | None, params: list[list[float]], dims: list[int], lines: Sequence[int] = (0, 1)
 ) -> Sequence[Gate]:
     if u is None:
         msg = "Custom Gate not set."
@@ -31,7 +31,7 @@ def ansatz_decompose(
             decomposition.append(u)
 
         decomposition.append(
-            CustomOne(circuit, "CUo_SUD", counter, generic_sud(params[i], dims[counter]), dims[counter])
+            CustomOne(circuit, "CUo_SUD", lines[counter], generic_sud(params[i], dims[counter]), dims[counter])
         )
 
         counter += 1
@@ -39,20 +39,26 @@ def ansatz_decompose(
     return decomposition
 
 
-def create_cu_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_cu_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: Sequence[int] = (0, 1)
+) -> Sequence[Gate]:
     params = params_splitter(p, dims)
     cu = Primitive.CUSTOM_PRIMITIVE
-    return ansatz_decompose(circuit, cu, params, dims)
+    return ansatz_decompose(circuit, cu, params, dims, lines)
 
 
-def create_ms_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_ms_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: Sequence[int] = (0, 1)
+) -> Sequence[Gate]:
     params = params_splitter(p, dims)
-    ms = gates.MS(circuit, "MS", [0, 1], [np.pi / 2], dims)  # ms_gate(np.pi / 2, dim)
+    ms = gates.MS(circuit, "MS", list(lines), [np.pi / 2], dims)  # ms_gate(np.pi / 2, dim)
 
-    return ansatz_decompose(circuit, ms, params, dims)
+    return ansatz_decompose(circuit, ms, params, dims, lines)
 
 
-def create_ls_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_ls_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: Sequence[int] = (0, 1)
+) -> Sequence[Gate]:
     params = params_splitter(p, dims)
 
     if 2 in dims:
@@ -62,6 +68,6 @@ def create_ls_instance(circuit: QuantumCircuit, p: list[float], dims: list[int])
     else:
         theta = np.pi
 
-    ls = gates.LS(circuit, "LS", [0, 1], [theta], dims)  # ls_gate(theta, dim)
+    ls = gates.LS(circuit, "LS", list(lines), [theta], dims)  # ls_gate(theta, dim)
 
-    return ansatz_decompose(circuit, ls, params, dims)
+    return ansatz_decompose(circuit, ls, params, dims, lines)
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
index a9450bd..aabf2e8 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
@@ -25,7 +25,8 @@ def variational_compile(
     layers: int,
     custom_primitive: Gate | None = None,
 ) -> QuantumCircuit:
-    dim_0, dim_1 = itemgetter(*target.reference_lines)(target.parent_circuit.dimensions)
+    lines = sorted(target.reference_lines)
+    dim_0, dim_1 = itemgetter(*lines)(target.parent_circuit.dimensions)
     Primitive.set_class_variables(custom_primitive)
     Optimizer.set_class_variables(target.to_matrix(), tolerance, dim_0, dim_1, layers)
     _best_layer, best_error, parameters = binary_search_compile(layers, ansatz_type)
@@ -35,11 +36,11 @@ def variational_compile(
 
     circuit = copy.deepcopy(target.parent_circuit)
     if ansatz_type == "MS":  # MS is 0
-        gates = create_ms_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_ms_instance(circuit, parameters, [dim_0, dim_1], lines)
     elif ansatz_type == "LS":  # LS is 1
-        gates = create_ls_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_ls_instance(circuit, parameters, [dim_0, dim_1], lines)
     elif ansatz_type == "CU":
-        gates = create_cu_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_cu_instance(circuit, parameters, [dim_0, dim_1], lines)
     else:
         raise ValueError
     circuit.set_instructions(gates)
-- 
2.43.0


From ec6337109ec7c75b0adabb8d52a7601ab0df807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 60/79] fix: sparsify acts on the lines of its gate

---
 .../twodit/variational_twodit_compilation/sparsifier.py  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
index af35cd8..9820761 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
@@ -39,14 +39,15 @@ def instantiate_rotations(circuit: QuantumCircuit, gate: Gate, params_list: list
     dims = typing.cast(list[int], gate.dimensions)
     params = params_splitter(params_list, dims)
 
+    line_0, line_1 = sorted(gate.reference_lines)
     decomposition: list[Gate] = []
 
     decomposition.extend((
-        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[2], dims[0]), dims[0]),
-        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[3], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", line_0, generic_sud(params[2], dims[0]), dims[0]),
+        CustomOne(circuit, "CUo_SUD", line_1, generic_sud(params[3], dims[1]), dims[1]),
         gate,
-        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[0], dims[0]), dims[0]),
-        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[1], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", line_0, generic_sud(params[0], dims[0]), dims[0]),
+        CustomOne(circuit, "CUo_SUD", line_1, generic_sud(params[1], dims[1]), dims[1]),
     ))
 
     return decomposition
-- 
2.43.0


From 071ae7ded024b1ca611a948cac4c9dfe1c03403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 61/79] fix: apply_gate_to_tlines works for qudits of any
 dimension

---
 .../compiler/compilation_minitools/numerical_ansatz_utils.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/compilation_minitools/numerical_ansatz_utils.py b/src/mqt/qudits/compiler/compilation_minitools/numerical_ansatz_utils.py
index 53ced3d..058f33d 100755
--- a/src/mqt/qudits/compiler/compilation_minitools/numerical_ansatz_utils.py
+++ b/src/mqt/qudits/compiler/compilation_minitools/numerical_ansatz_utils.py
@@ -56,7 +56,8 @@ def apply_gate_to_tlines(
     elif isinstance(targets, int):
         targets = [targets]
 
-    subset_gate = np.zeros((2**circuits_size, 2**circuits_size), dtype=np.complex128)
+    size = int(np.prod(dims))
+    subset_gate = np.zeros((size, size), dtype=np.complex128)
     for i in targets:
         subset_gate += gate_expand_to_circuit(gate_matrix, circuits_size, i, dims)
     return subset_gate
-- 
2.43.0


From 2e5e75dc1f901afbf2157778ffc749a9aed2b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 62/79] fix: generic_sud reaches every special unitary, not a
 lower-dimensional subset

---
 .../parametrize.py                               | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/parametrize.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/parametrize.py
index 88daf1f..09b3879 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/parametrize.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/parametrize.py
@@ -48,14 +48,6 @@ def generic_sud(params: list[float] | NDArray[np.float64], dimension: int) -> ND
     # required well-structured d2 -1 params
     c_unitary = np.identity(dimension, dtype="complex")
 
-    for diag_index in range(dimension - 1):
-        l_vec = from_dirac_to_basis([diag_index], dimension)
-        d_vec = from_dirac_to_basis([dimension - 1], dimension)
-
-        zld = np.outer(np.array(l_vec), np.array(l_vec).T.conj()) - np.outer(np.array(d_vec), np.array(d_vec).T.conj())
-
-        c_unitary = np.matmul(c_unitary, expm(1j * params[reindex(diag_index, diag_index, dimension)] * zld))
-
     for m in range(dimension - 1):
         for n in range(m + 1, dimension):
             m_vec = from_dirac_to_basis([m], dimension)
@@ -73,4 +65,12 @@ def generic_sud(params: list[float] | NDArray[np.float64], dimension: int) -> ND
 
             c_unitary = np.matmul(c_unitary, expm(1j * params[reindex(m, n, dimension)] * ymn))
 
+    for diag_index in range(dimension - 1):
+        l_vec = from_dirac_to_basis([diag_index], dimension)
+        d_vec = from_dirac_to_basis([dimension - 1], dimension)
+
+        zld = np.outer(np.array(l_vec), np.array(l_vec).T.conj()) - np.outer(np.array(d_vec), np.array(d_vec).T.conj())
+
+        c_unitary = np.matmul(c_unitary, expm(1j * params[reindex(diag_index, diag_index, dimension)] * zld))
+
     return c_unitary
-- 
2.43.0


From 8116c06da53180db1fdf9b799726198767e94373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 63/79] fix: transposing a decision diagram no longer writes
 outside its edge list

---
 include/dd/MDDPackage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 12a81bd..b522a2a 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1880,7 +1880,8 @@ public:
       return result;
     }
 
-    std::vector<mEdge> newEdge{};
+    std::vector<mEdge> newEdge(edge.nextNode->edges.size(),
+                               dd::Edge<mNode>::zero);
     auto basicDim =
         registersSizes.at(static_cast<std::size_t>(edge.nextNode->varIndx));
 
-- 
2.43.0


From 139a841a498910c14241967d2eb5e38cee867a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 64/79] fix: reading a matrix entry of a decision diagram uses
 the dimension of the qudit

---
 include/dd/MDDPackage.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index b522a2a..c9ae049 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1647,7 +1647,9 @@ public:
 
     const auto row = reprI.front();
     const auto col = reprJ.front();
-    const auto rowMajorIndex = row * edge.nextNode->edges.size() + col;
+    const auto basicDim =
+        registersSizes.at(static_cast<std::size_t>(edge.nextNode->varIndx));
+    const auto rowMajorIndex = row * basicDim + col;
     ComplexValue returnAmp{};
 
     if (!edge.nextNode->edges.at(rowMajorIndex).weight.approximatelyZero()) {
-- 
2.43.0


From 3d5a5336c2f6f09d39581afebf8500eecf5382c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 65/79] fix: the inner product of decision diagrams conjugates
 the top weight of its second state

---
 include/dd/MDDPackage.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index c9ae049..c3b5bc5 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1062,8 +1062,10 @@ public:
     if (y.nextNode->varIndx > circWidth) {
       circWidth = y.nextNode->varIndx;
     }
+    auto yConj = y;
+    yConj.weight = ComplexNumbers::conj(y.weight);
     const ComplexValue ip =
-        innerProduct(x, y, static_cast<QuantumRegister>(circWidth + 1));
+        innerProduct(x, yConj, static_cast<QuantumRegister>(circWidth + 1));
 
     [[maybe_unused]] const auto after = complexNumber.cacheCount();
     assert(after == before);
-- 
2.43.0


From 2d5c8a4d5d1a9eb6caea174c0dd9fdeb18aed89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 66/79] fix: the tensor product of decision diagrams keeps the
 weight of its first factor

---
 include/dd/MDDPackage.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index c3b5bc5..4cc59e2 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1228,8 +1228,7 @@ private:
         e = makeDDNode(idx, eSucc);
       }
 
-      e.weight = complexNumber.getCached(CTEntry::val(y.weight.real),
-                                         CTEntry::val(y.weight.img));
+      e.weight = complexNumber.mulCached(x.weight, y.weight);
       computeTable.insert(x, y, {e.nextNode, e.weight});
       return e;
     }
-- 
2.43.0


From a64519e9a61b9e1858c8311ae4b6588bd1b36b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 67/79] fix: decision-diagram noise reaches the control lines
 of controlled gates

---
 src/python/bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 69fbaf1..21dfed9 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -306,7 +306,7 @@ Circuit generateCircuit(const Circuit_info& circuitInfo,
     std::vector<int> referenceLines(target_qudits.begin(), target_qudits.end());
 
     if (!(std::get<0>(control_set).empty()) &&
-        (std::get<1>(control_set).empty())) {
+        !(std::get<1>(control_set).empty())) {
       auto [ctrl_dits, levels] = control_set; // Decompose the tuple
 
       referenceLines.insert(referenceLines.end(), ctrl_dits.begin(),
-- 
2.43.0


From fe2f96896e0a43f38961c4e87ccb3edb33b73db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 68/79] fix: decision-diagram noise that does not apply to a
 gate is refused

---
 src/python/bindings.cpp | 60 +++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 21dfed9..7167354 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -320,6 +320,43 @@ Circuit generateCircuit(const Circuit_info& circuitInfo,
         double depo = std::get<0>(noise_info);
         double deph = std::get<1>(noise_info);
 
+        // resolved for every shot, so that noise which does not apply is always
+        // refused
+        std::vector<int> qudits;
+        if (std::holds_alternative<std::vector<int>>(mode)) {
+          qudits = std::get<std::vector<int>>(mode);
+
+        } else if (std::holds_alternative<std::string>(mode)) {
+          std::string modeStr = std::get<std::string>(mode);
+
+          if (modeStr == "local") {
+            qudits = referenceLines;
+          } else if (modeStr == "all") {
+            for (int i = 0; i < num_qudits; ++i)
+              qudits.push_back(i);
+          } else if (modeStr == "nonlocal") {
+            if (gate_type != "TWO" && gate_type != "MULTI") {
+              throw std::invalid_argument(
+                  "Nonlocal noise does not apply to gate " + tag);
+            }
+            qudits = referenceLines;
+          } else if (modeStr == "control") {
+            if (gate_type != "TWO" || target_qudits.size() != 2) {
+              throw std::invalid_argument("Noise on the control does not apply "
+                                          "to gate " +
+                                          tag);
+            }
+            qudits.push_back(target_qudits.at(0));
+          } else if (modeStr == "target") {
+            if (gate_type != "TWO" || target_qudits.size() != 2) {
+              throw std::invalid_argument("Noise on the target does not apply "
+                                          "to gate " +
+                                          tag);
+            }
+            qudits.push_back(target_qudits.at(1));
+          }
+        }
+
         std::discrete_distribution<int> x_dist({1.0 - depo, depo});
         std::discrete_distribution<int> z_dist({1.0 - deph, deph});
 
@@ -327,29 +364,6 @@ Circuit generateCircuit(const Circuit_info& circuitInfo,
         int z_choice = z_dist(gen);
 
         if (x_choice == 1 || z_choice == 1) {
-          std::vector<int> qudits;
-          if (std::holds_alternative<std::vector<int>>(mode)) {
-            qudits = std::get<std::vector<int>>(mode);
-
-          } else if (std::holds_alternative<std::string>(mode)) {
-            std::string modeStr = std::get<std::string>(mode);
-
-            if (modeStr == "local") {
-              qudits = referenceLines;
-            } else if (modeStr == "all") {
-              for (int i = 0; i < num_qudits; ++i)
-                qudits.push_back(i);
-            } else if (modeStr == "nonlocal") {
-              assert(gate_type == "TWO" || gate_type == "MULTI");
-              qudits = referenceLines;
-            } else if (modeStr == "control") {
-              assert(gate_type == "TWO");
-              qudits.push_back(target_qudits.at(0));
-            } else if (modeStr == "target") {
-              assert(gate_type == "TWO");
-              qudits.push_back(target_qudits.at(1));
-            }
-          }
           if (x_choice == 1) {
             for (auto dit : qudits) {
               if (tag == "rxy" || tag == "rz" || tag == "virtrz") {
-- 
2.43.0


From 9fa854d0214bb0cc23d4bf7231ff03f5a20d7003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 69/79] fix: decision-diagram errors on levels a qubit does not
 have are refused

---
 src/python/bindings.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 7167354..928fe8d 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -530,6 +530,17 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     std::vector<dd::Control::Type> ctrlLevels = std::get<1>(control_set);
   }
 
+  if (tag == "rxy" || tag == "rz" || tag == "rh" || tag == "virtrz") {
+    auto pl = params.cast<py::list>();
+    const size_t numLevels = (tag == "virtrz") ? 1 : 2;
+    for (size_t i = 0; i < numLevels; ++i) {
+      if (pl[i].cast<size_t>() >= static_cast<size_t>(dims.at(0))) {
+        throw std::invalid_argument("Level of gate " + tag +
+                                    " exceeds the dimension of its qudit.");
+      }
+    }
+  }
+
   if (tag == "rxy") {
     // Handle rxy tag with dimension 2
     auto pl = params.cast<py::list>();
-- 
2.43.0


From 45564785bc9f947592c0cfb8241646574be38df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 70/79] fix: a histogram is not drawn over an earlier one that
 is still open

---
 src/mqt/qudits/visualisation/plot_information.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index 85ddfed..ba5b461 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -46,6 +46,8 @@ class HistogramWithErrors:
         self.ylabel = ylabel
 
     def generate_histogram(self) -> None:
+        if plt.gca().has_data():  # an earlier histogram that is still open keeps its figure
+            plt.figure()
         plt.bar(
             self.labels,
             self.counts,
@@ -63,6 +65,8 @@ class HistogramWithErrors:
         plt.show()
 
     def save_to_png(self, filename: str) -> None:
+        if plt.gca().has_data():  # an earlier histogram that is still open keeps its figure
+            plt.figure()
         plt.bar(
             self.labels,
             self.counts,
-- 
2.43.0


From 80d6c7f776cc2b92d6987554f2c59fd89f2a7f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 71/79] fix: shots given as an array can be plotted

---
 src/mqt/qudits/visualisation/plot_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index ba5b461..f3d4d87 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -113,7 +113,7 @@ def plot_state(
 
 def plot_counts(measurements: list[int] | NDArray[int], circuit: QuantumCircuit) -> list[int] | NDArray[int]:
     labels = state_labels(circuit)
-    counts = [measurements.count(i) for i in range(len(labels))]
+    counts = [list(measurements).count(i) for i in range(len(labels))]
     counts = remap_result(counts, circuit)
 
     errors = len(labels) * [0]
-- 
2.43.0


From 7a9796789a919ccaef34eefd7d3b55b21dc825de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 72/79] fix: error bars of a plotted state follow its
 amplitudes through the mapping

---
 src/mqt/qudits/visualisation/plot_information.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index f3d4d87..5fa1c43 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -105,6 +105,8 @@ def plot_state(
     state_vector_list = np.squeeze(state_vector).tolist()
     counts = [abs(coeff) for coeff in state_vector_list]
     counts = remap_result(counts, circuit)
+    if errors is not None:
+        errors = remap_result(list(errors), circuit)  # the error bars belong to the same states as the amplitudes
 
     h_plotter = HistogramWithErrors(labels, counts, errors, title="Simulation", xlabel="States", ylabel="Sqrt(Pr)")
     h_plotter.generate_histogram()
-- 
2.43.0


From c6bba72e159f62c9b5d9eaf65c35e927fa3f3652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 73/79] fix: custom gates on many qudits refuse matrices of
 another shape

---
 src/mqt/qudits/quantum_circuit/gates/custom_multi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/custom_multi.py b/src/mqt/qudits/quantum_circuit/gates/custom_multi.py
index 7afc3d5..f4dfb29 100644
--- a/src/mqt/qudits/quantum_circuit/gates/custom_multi.py
+++ b/src/mqt/qudits/quantum_circuit/gates/custom_multi.py
@@ -41,7 +41,11 @@ class CustomMulti(Gate):
             self.__array_storage = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
-        return self.__array_storage
+        matrix = self.__array_storage
+        if matrix is not None and matrix.shape != 2 * (int(np.prod(self.dimensions)),):
+            msg = f"Matrix of shape {matrix.shape} does not fit qudits of dimension {self.dimensions}"
+            raise ValueError(msg)
+        return matrix
 
     @staticmethod
     def validate_parameter(parameter: NDArray | None = None) -> bool:
-- 
2.43.0


From abc87afc90339460d77360465e70df38d85e5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 74/79] fix: program expressions read ^ as a power and refuse
 numbers glued to pi

---
 src/mqt/qudits/quantum_circuit/qasm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 9c7ce57..208fff3 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -78,7 +78,7 @@ class QASM:
     @staticmethod
     def safe_eval_math_expression(expression: str) -> float | None:
         try:
-            expression = expression.replace("pi", str(np.pi))
+            expression = expression.replace("^", "**")
             # Define a dictionary of allowed names
             allowed_names = {"__builtins__": None, "pi": np.pi}
             # Use eval with restricted names
-- 
2.43.0


From 0bc05424ff62ac5eb3c2032733c05762b3797d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 75/79] fix: statements that only start like measure or barrier
 are not ignored

---
 src/mqt/qudits/quantum_circuit/qasm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 208fff3..fb3aac7 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -187,7 +187,7 @@ class QASM:
                 r"\s*;"
             ),
             "error": re.compile(r"^(gate_matrix|if)"),
-            "ignore": re.compile(r"^(measure|barrier)"),
+            "ignore": re.compile(r"^(measure|barrier)\b"),
         }
 
         # initialise number of qubits to zero and an empty list for instructions
-- 
2.43.0


From 110b50a2d6ef5ac8fc6e90ece334bc6bbb2c43eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 76/79] fix: programs declaring a register twice or with spare
 dimensions are refused

---
 src/mqt/qudits/quantum_circuit/qasm.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index fb3aac7..d1b4233 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -59,6 +59,10 @@ class QASM:
             else:
                 qdims = [2] * nq
 
+            if len(qdims) != int(nq) or any(label == name for label, _ in sitemap):
+                msg = f"A register needs its own name and one dimension for each qudit: {line}"
+                raise ValueError(msg)
+
             for i in range(int(nq)):
                 sitemap[str(name), i] = len(sitemap), qdims[i]
 
@@ -70,6 +74,9 @@ class QASM:
         match = rgxs["creg"].match(line)
         if match:
             name, nclassics = match.groups()
+            if any(label == name for label, _ in sitemap_classic):
+                msg = f"A register needs its own name: {line}"
+                raise ValueError(msg)
             for i in range(int(nclassics)):
                 sitemap_classic[str(name), i] = (len(sitemap_classic),)
             return True
-- 
2.43.0


From 6ce3f44f6dc2da77f44b9c505d9996c6eb7e1143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 77/79] fix: programs with fractional levels are refused

---
 src/mqt/qudits/quantum_circuit/circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index d256bc0..d3ca570 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -365,6 +365,9 @@ class QuantumCircuit:
                         if not isinstance(params, np.ndarray):
                             levels = slice(self.qasm_level_parameters.get(op["name"], 0))
                             params = list(params)
+                            if any(int(level) != level for level in params[levels]):
+                                msg = f"Levels have to be whole numbers: {params}"
+                                raise ValueError(msg)
                             params[levels] = [int(level) for level in params[levels]]
                         if op["controls"]:
                             function(qudits_call, params, op["controls"])
-- 
2.43.0


From bacbf89e0ebe6aa6cb4910e9bd2bc191bcdb5ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 78/79] fix: gates refuse parameter lists that are too long

---
 src/mqt/qudits/quantum_circuit/gates/cx.py      | 1 +
 src/mqt/qudits/quantum_circuit/gates/ls.py      | 1 +
 src/mqt/qudits/quantum_circuit/gates/ms.py      | 1 +
 src/mqt/qudits/quantum_circuit/gates/noise_x.py | 1 +
 src/mqt/qudits/quantum_circuit/gates/noise_y.py | 1 +
 src/mqt/qudits/quantum_circuit/gates/r.py       | 1 +
 src/mqt/qudits/quantum_circuit/gates/rh.py      | 1 +
 src/mqt/qudits/quantum_circuit/gates/rz.py      | 1 +
 8 files changed, 8 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/gates/cx.py b/src/mqt/qudits/quantum_circuit/gates/cx.py
index 4e392e4..4a0bb90 100644
--- a/src/mqt/qudits/quantum_circuit/gates/cx.py
+++ b/src/mqt/qudits/quantum_circuit/gates/cx.py
@@ -89,6 +89,7 @@ class CEx(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 4, "Two levels, a control level and an angle are expected"
             assert isinstance(parameter[0], int)
             assert isinstance(parameter[1], int)
             assert isinstance(parameter[2], int)
diff --git a/src/mqt/qudits/quantum_circuit/gates/ls.py b/src/mqt/qudits/quantum_circuit/gates/ls.py
index d9d8354..47e259d 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ls.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ls.py
@@ -68,6 +68,7 @@ class LS(Gate):
             return False
 
         if isinstance(param, list):
+            assert len(param) == 1, "One angle is expected"
             assert 0 <= cast(float, param[0]) <= 2 * np.pi, f"Angle should be in the range [0, 2*pi]: {param[0]}"
             return True
 
diff --git a/src/mqt/qudits/quantum_circuit/gates/ms.py b/src/mqt/qudits/quantum_circuit/gates/ms.py
index 7e3fc35..02cb893 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ms.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ms.py
@@ -75,6 +75,7 @@ class MS(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 1, "One angle is expected"
             assert 0 <= cast(float, parameter[0]) <= 2 * np.pi, (
                 f"Angle should be in the range [0, 2*pi]: {parameter[0]}"
             )
diff --git a/src/mqt/qudits/quantum_circuit/gates/noise_x.py b/src/mqt/qudits/quantum_circuit/gates/noise_x.py
index 9cdef08..46724ed 100644
--- a/src/mqt/qudits/quantum_circuit/gates/noise_x.py
+++ b/src/mqt/qudits/quantum_circuit/gates/noise_x.py
@@ -63,6 +63,7 @@ class NoiseX(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 2, "Two levels are expected"
             assert isinstance(parameter[0], int)
             assert isinstance(parameter[1], int)
             assert parameter[0] >= 0
diff --git a/src/mqt/qudits/quantum_circuit/gates/noise_y.py b/src/mqt/qudits/quantum_circuit/gates/noise_y.py
index afb67d9..56e5c2e 100644
--- a/src/mqt/qudits/quantum_circuit/gates/noise_y.py
+++ b/src/mqt/qudits/quantum_circuit/gates/noise_y.py
@@ -63,6 +63,7 @@ class NoiseY(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 2, "Two levels are expected"
             assert isinstance(parameter[0], int)
             assert isinstance(parameter[1], int)
             assert parameter[0] >= 0
diff --git a/src/mqt/qudits/quantum_circuit/gates/r.py b/src/mqt/qudits/quantum_circuit/gates/r.py
index 7c98cc8..87f0c3b 100644
--- a/src/mqt/qudits/quantum_circuit/gates/r.py
+++ b/src/mqt/qudits/quantum_circuit/gates/r.py
@@ -78,6 +78,7 @@ class R(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 4, "Two levels and two angles are expected"
             assert isinstance(parameter[0], int)
             assert isinstance(parameter[1], int)
             assert isinstance(parameter[2], float)
diff --git a/src/mqt/qudits/quantum_circuit/gates/rh.py b/src/mqt/qudits/quantum_circuit/gates/rh.py
index 7fa06f8..5b362a7 100644
--- a/src/mqt/qudits/quantum_circuit/gates/rh.py
+++ b/src/mqt/qudits/quantum_circuit/gates/rh.py
@@ -70,6 +70,7 @@ class Rh(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 2, "Two levels are expected"
             assert isinstance(parameter[0], int)
             assert isinstance(parameter[1], int)
 
diff --git a/src/mqt/qudits/quantum_circuit/gates/rz.py b/src/mqt/qudits/quantum_circuit/gates/rz.py
index 03cbd4c..003ae39 100644
--- a/src/mqt/qudits/quantum_circuit/gates/rz.py
+++ b/src/mqt/qudits/quantum_circuit/gates/rz.py
@@ -72,6 +72,7 @@ class Rz(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 3, "Two levels and an angle are expected"
             assert isinstance(parameter[0], int)
             assert isinstance(parameter[1], int)
             assert isinstance(parameter[2], float)
-- 
2.43.0


From 65edbaa64999749761d5a674f8a5cdd29c77a85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:14 +0000
Subject: [PATCH 79/79] fix: to_matrix gives callers a matrix of their own

---
 .../quantum_circuit/components/extensions/matrix_factory.py    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
index dc44438..be715a4 100644
--- a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
+++ b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import itertools
 import operator
 import typing
@@ -19,7 +20,7 @@ class MatrixFactory:
         self.ids: int = identities_flag
 
     def generate_matrix(self) -> NDArray[np.complex128]:
-        matrix = self.gate.__array__()
+        matrix = copy.copy(self.gate.__array__())  # a custom gate gives its own array, which callers may not change
         if self.gate.dagger:
             matrix = matrix.conj().T
         from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
-- 
2.43.0

