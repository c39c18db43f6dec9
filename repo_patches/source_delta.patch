From 2bb0dbf93c51f97fcc90598c8993ae1e59be1d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 01/47] fix: check control levels against the dimension of the
 control qudit

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index bfe3e35..22bcc58 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -123,7 +123,7 @@ class Gate(Instruction):
             raise IndexError(msg)
         # if isinstance(self._dimensions, int):
         #    dimensions = [self._dimensions]
-        if any(ctrl >= self.parent_circuit.dimensions[i] for i, ctrl in enumerate(ctrl_states)):
+        if any(not 0 <= ctrl < self.parent_circuit.dimensions[i] for i, ctrl in zip(indices, ctrl_states)):
             msg = "Controls States beyond qudit size "
             raise IndexError(msg)
         self._controls_data = ControlData(indices, ctrl_states)
-- 
2.43.0


From 528186cdfe4b8792d1a261d296c0c85399f761a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 02/47] fix: update is_long_range when controls are added to a
 gate

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 22bcc58..fb73926 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -132,7 +132,7 @@ class Gate(Instruction):
             self.set_gate_type_two()
         elif len(self.reference_lines) > 2:
             self.set_gate_type_multi()
-        self.check_long_range()
+        self.is_long_range = self.check_long_range()
         return self
 
     def validate_parameter(self, param: Parameter) -> bool:  # noqa: PLR6301 ARG002
-- 
2.43.0


From 3a5ebb95211b9283850cd3b1a8db730fa3eb8d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 03/47] fix: export the control qudits of a gate to QASM
 instead of its target

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index fb73926..5014677 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -179,7 +179,7 @@ class Gate(Instruction):
             string += " ctl "
             for _ctrl in self._controls_data.indices:
                 string += (
-                    f"{self.parent_circuit.inverse_sitemap[qudit][0]}[{self.parent_circuit.inverse_sitemap[qudit][1]}] "
+                    f"{self.parent_circuit.inverse_sitemap[_ctrl][0]}[{self.parent_circuit.inverse_sitemap[_ctrl][1]}] "
                 )
             string += str(self._controls_data.ctrl_states)
 
-- 
2.43.0


From f6e355a53aa781a4fdba5d7a1b0e3d674fb9765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 04/47] fix: index the dimension slice relative to the first
 reference line

---
 .../quantum_circuit/components/extensions/matrix_factory.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
index aed2a37..dc44438 100644
--- a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
+++ b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
@@ -81,7 +81,7 @@ class MatrixFactory:
         slide_indices_rest = [q - min(ref_lines) for q in rest_of_indices]
 
         single_site_logics = (
-            [list(range(dimensions[qudits_applied[0]]))]
+            [list(range(dimensions[slide_indices_qudits_a[0]]))]
             if len(qudits_applied) == 1
             else [list(range(d)) for d in operator.itemgetter(*slide_indices_qudits_a)(dimensions)]
         )
-- 
2.43.0


From b7f70a08daf2fdc3619fa2523cac832c7db42e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 05/47] fix: parse noisex and noisey gates instead of dropping
 them

---
 src/mqt/qudits/quantum_circuit/circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index fb83ac3..0ed56e5 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -86,6 +86,8 @@ class QuantumCircuit:
         "s": "s",
         "x": "x",
         "z": "z",
+        "noisex": "noisex",
+        "noisey": "noisey",
     }
 
     def __init__(self, *args: int | QuantumRegister | list[int] | None) -> None:
-- 
2.43.0


From 23c330b3067800c2673280ae4df56aecbc51405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 06/47] fix: reset the mappings together with the rest of the
 circuit

---
 src/mqt/qudits/quantum_circuit/circuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 0ed56e5..4fd70c2 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -148,6 +148,7 @@ class QuantumCircuit:
         self.num_cl = 0
         self.num_qudits = 0
         self._dimensions = []
+        self.mappings = None
         self.path_save = None
 
     def copy(self) -> QuantumCircuit:
-- 
2.43.0


From 60905e1dd8aa3e421d0131d8e5a83e6e7f1d51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 07/47] fix: pass the parameters parsed from QASM to the gates
 instead of ignoring them

---
 src/mqt/qudits/quantum_circuit/qasm.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 0627cba..e35f243 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import re
 from pathlib import Path
-from typing import TYPE_CHECKING, Any, cast
+from typing import TYPE_CHECKING, Any, ClassVar, cast
 
 import numpy as np
 
@@ -16,6 +16,16 @@ if TYPE_CHECKING:
 class QASM:
     """Class that manages the parsing of QASM programs."""
 
+    # positions of the real-valued parameters of each gate, the other parameters are levels
+    angle_positions: ClassVar[dict[str, tuple[int, ...]]] = {
+        "cx": (3,),
+        "ls": (0,),
+        "ms": (0,),
+        "rxy": (2, 3),
+        "rz": (2,),
+        "virtrz": (1,),
+    }
+
     def __init__(self) -> None:
         self.program: dict[str, Any] = {}
 
@@ -108,9 +118,15 @@ class QASM:
                     params = np.load(params)
                 else:
                     # TODO: This does not handle "custom_data" correctly
-                    params = tuple(QASM.safe_eval_math_expression(param) for param in params.strip("()[]").split(","))
+                    angles = QASM.angle_positions.get(label, ())
+                    params = [
+                        value if i in angles or value is None or not value.is_integer() else int(value)
+                        for i, value in enumerate(
+                            QASM.safe_eval_math_expression(param) for param in params.strip("()[]").split(",")
+                        )
+                    ]
             else:
-                params = ()
+                params = []
 
             qudits_list = []
             for dit in qudits.split(","):
-- 
2.43.0


From 3718bd3c4e283208b07ebf04613e181db98023a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 08/47] fix: end a multiline QASM comment wherever the end
 marker is on the line

---
 src/mqt/qudits/quantum_circuit/qasm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index e35f243..a31c466 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -44,7 +44,7 @@ class QASM:
             in_comment = True
         if in_comment:
             # in multiline comment, check if its ending
-            in_comment = not bool(rgxs["comment_end"].match(line))
+            in_comment = not bool(rgxs["comment_end"].search(line))
             return True, in_comment
         if rgxs["header"].match(line):
             # ignore standard header lines
-- 
2.43.0


From e8b0e15b267a51028c150e75a614f337fa13380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 09/47] fix: apply the controls of a gate in MISim

---
 src/python/bindings.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 89fa626..6e616db 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -514,6 +514,9 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
       (std::get<1>(control_set).size() > 0)) {
     std::vector<dd::QuantumRegister> ctrlQudits = std::get<0>(control_set);
     std::vector<dd::Control::Type> ctrlLevels = std::get<1>(control_set);
+    for (size_t i = 0; i < ctrlQudits.size() && i < ctrlLevels.size(); ++i) {
+      controlSet.insert(dd::Control{ctrlQudits[i], ctrlLevels[i]});
+    }
   }
 
   if (tag == "rxy") {
-- 
2.43.0


From 39eaece638fe7d2af02e1b47e082e5978f5bc005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 10/47] fix: accept the levels of rxy, rz and rh in any order
 in MISim

---
 src/python/bindings.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 6e616db..53cf609 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -524,6 +524,9 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto pl = params.cast<py::list>();
     auto leva = pl[0].cast<size_t>();
     auto levb = pl[1].cast<size_t>();
+    if (leva > levb) {
+      std::swap(leva, levb);
+    }
     auto theta = pl[2].cast<double>();
     auto phi = pl[3].cast<double>();
 
@@ -558,6 +561,9 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
 
     auto leva = pl[0].cast<size_t>();
     auto levb = pl[1].cast<size_t>();
+    if (leva > levb) {
+      std::swap(leva, levb);
+    }
     auto phi = pl[2].cast<double>();
 
     if (checkDim(dims, 2)) {
@@ -588,6 +594,9 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto pl = params.cast<py::list>();
     auto leva = pl[0].cast<size_t>();
     auto levb = pl[1].cast<size_t>();
+    if (leva > levb) {
+      std::swap(leva, levb);
+    }
 
     if (checkDim(dims, 2)) {
       dd::GateMatrix matrix = dd::RH();
-- 
2.43.0


From a9b9eb3389f551d0529f555293fb3970c54fcbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 11/47] fix: reject gates MISim does not support instead of
 crashing

---
 src/python/bindings.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 53cf609..9db4818 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -502,7 +502,7 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
   const auto& [tag, dag, dims, gate_type, target_qudits, params, control_set] =
       instruction;
 
-  dd::MDDPackage::mEdge gate;
+  dd::MDDPackage::mEdge gate{};
   auto numberRegs =
       static_cast<dd::QuantumRegisterCount>(dd->numberOfQuantumRegisters);
 
@@ -768,6 +768,10 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto target = static_cast<dd::QuantumRegister>(target_qudits.at(1));
     return dd->csum(numberRegs, cReg, target, dag);
   }
+  if (gate.nextNode == nullptr) {
+    throw std::invalid_argument("Gate " + tag +
+                                " is not supported by MISim on these qudits.");
+  }
   if (dag) {
     gate = dd->conjugateTranspose(gate);
   }
-- 
2.43.0


From 4ec5a06fa350180e1ae0a74580a94018b0eab07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 12/47] fix: order the factors of LS and MS by line like the
 other two-qudit gates

---
 src/mqt/qudits/quantum_circuit/gates/ls.py | 9 +++++----
 src/mqt/qudits/quantum_circuit/gates/ms.py | 9 ++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/ls.py b/src/mqt/qudits/quantum_circuit/gates/ls.py
index 79b720e..aff0a78 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ls.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ls.py
@@ -45,15 +45,16 @@ class LS(Gate):
             self._params = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
+        # the matrix acts on the lines in ascending order, as for all the other gates
+        dimensions = [self.dimensions[i] for i in np.argsort(cast(list[int], self.target_qudits))]
+        dimension_0, dimension_1 = dimensions
 
         exp_matrix = np.zeros((dimension_0 * dimension_1, dimension_0 * dimension_1), dtype="complex")
         d_min = min(dimension_0, dimension_1)
         for i in range(d_min):
             exp_matrix += np.outer(
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
+                np.array(from_dirac_to_basis([i, i], dimensions)),
+                np.array(from_dirac_to_basis([i, i], dimensions)),
             )
 
         return expm(-1j * self.theta * exp_matrix)
diff --git a/src/mqt/qudits/quantum_circuit/gates/ms.py b/src/mqt/qudits/quantum_circuit/gates/ms.py
index db3aaeb..f019d7e 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ms.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ms.py
@@ -44,12 +44,11 @@ class MS(Gate):
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
         theta = self.theta
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
         ps: list[int | str] = [0, 1, "s"]
-        qudits_targeted = cast(list[int], self.target_qudits)
-        qudit_targeted_0: int = qudits_targeted[0]
-        qudit_targeted_1: int = qudits_targeted[1]
+        # the matrix acts on the lines in ascending order, as for all the other gates
+        (qudit_targeted_0, dimension_0), (qudit_targeted_1, dimension_1) = sorted(
+            zip(cast(list[int], self.target_qudits), self.dimensions)
+        )
 
         gate_part_1 = np.kron(
             np.identity(dimension_0, dtype="complex"),
-- 
2.43.0


From 1c11ac4505ee4038342356636aefdd6dd30ad9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 13/47] fix: let the dagger of a dagger be the gate again

---
 .../mapping_aware_transpilation/phy_local_adaptive_decomp.py | 3 ++-
 .../mapping_aware_transpilation/phy_local_qr_decomp.py       | 5 +++--
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py | 3 ++-
 .../compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py | 3 ++-
 src/mqt/qudits/quantum_circuit/gate.py                       | 2 +-
 5 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index 6318bf3..e244b6e 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import contextlib
 import gc
 import itertools
+from copy import copy
 from typing import TYPE_CHECKING, cast
 
 import numpy as np
@@ -51,7 +52,7 @@ class PhyLocAdaPass(CompilerPass):
         (matrices_decomposed, _best_cost, new_energy_level_graph) = adaptive.execute()
 
         self.backend.energy_level_graphs[cast(int, gate.target_qudits)] = new_energy_level_graph
-        return [op.dag() for op in reversed(matrices_decomposed)]
+        return [copy(op).dag() for op in reversed(matrices_decomposed)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit: QuantumCircuit = circuit
diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
index c3da3df..ff6fd4d 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import gc
+from copy import copy
 from typing import TYPE_CHECKING, cast
 
 import numpy as np
@@ -28,7 +29,7 @@ class PhyLocQRPass(CompilerPass):
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
         qr = PhyQrDecomp(gate, energy_graph_i, not_stand_alone=False)
         decomp, _algorithmic_cost, _total_cost = qr.execute()
-        return [op.dag() for op in reversed(decomp)]
+        return [copy(op).dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
@@ -38,7 +39,7 @@ class PhyLocQRPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.SINGLE:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans = [op.dag() for op in reversed(gate_trans)]
+                gate_trans = [copy(op).dag() for op in reversed(gate_trans)]
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index fe13562..3aa2e33 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 import gc
 import typing
+from copy import copy
 from operator import itemgetter
 
 import numpy as np
@@ -33,7 +34,7 @@ class LogEntQRCEXPass(CompilerPass):
     def transpile_gate(gate: Gate) -> list[Gate]:
         eqr = EntangledQRCEX(gate)
         decomp, _countcr, _countpsw = eqr.execute()
-        return [op.dag() for op in reversed(decomp)]
+        return [copy(op).dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 1c24a28..d3ad43e 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import gc
+from copy import copy
 from typing import TYPE_CHECKING, cast
 
 from mqt.qudits.compiler import CompilerPass
@@ -62,7 +63,7 @@ class PhyEntQRCEXPass(CompilerPass):
         perm_0_d_seq.extend(perm_0_seq)
         perm_0_d_seq.extend(perm_1_seq)
 
-        return [op.dag() for op in reversed(decomp)]
+        return [copy(op).dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 5014677..2714bf3 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -85,7 +85,7 @@ class Gate(Instruction):
 
     def dag(self) -> Gate:
         self._name += "_dag"
-        self.dagger = True
+        self.dagger = not self.dagger
         return self
 
     def to_matrix(self, identities: int = 0) -> NDArray:
-- 
2.43.0


From b57e2c59bf5651468865aab1b3ffc85ebdc49aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 14/47] fix: do not invert the gates compiled by
 PhyLocQRPass.transpile

---
 .../onedit/mapping_aware_transpilation/phy_local_qr_decomp.py    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
index ff6fd4d..ebb65de 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
@@ -39,7 +39,6 @@ class PhyLocQRPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.SINGLE:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans = [copy(op).dag() for op in reversed(gate_trans)]
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
-- 
2.43.0


From 69cb5d280315686a1f910e77f610bd9256574cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 15/47] fix: give the phase gates of QrDecomp a level instead
 of the node data

---
 .../mapping_un_aware_transpilation/log_local_qr_decomp.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
index 170ac82..950a17c 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
@@ -78,7 +78,7 @@ class QrDecomp:
                             self.gate.parent_circuit,
                             "VRz",
                             cast(int, self.gate.target_qudits),
-                            [self.graph.nodes[i], theta_z],
+                            [i, theta_z],
                             cast(int, self.gate.dimensions),
                         )  # (thetaZ, self.graph.nodes[i]['lpmap'], dimension) # [self.graph.nodes[i]["lpmap"], thetaZ],
                         decomp.append(phase_gate)
-- 
2.43.0


From 0b7b5a98788d829470ae3b0a0011f6ff3f7f907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 16/47] fix: compile to the gate instead of its inverse in the
 logical local passes

---
 .../log_local_adaptive_decomp.py                         | 9 +++------
 .../log_local_qr_decomp.py                               | 3 ++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
index 93dee68..e2bbcf4 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import contextlib
 import gc
+from copy import copy
 from typing import TYPE_CHECKING, cast
 
 import numpy as np
@@ -40,13 +41,9 @@ class LogLocAdaPass(CompilerPass):
             gate, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions)
         )
 
-        (
-            matrices_decomposed,
-            _best_cost,
-            self.backend.energy_level_graphs[cast(int, gate.target_qudits)],
-        ) = adaptive.execute()
+        matrices_decomposed, _best_cost, _final_graph = adaptive.execute()
 
-        return matrices_decomposed
+        return [copy(op).dag() for op in reversed(matrices_decomposed)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
index 950a17c..9c620cb 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import gc
+from copy import copy
 from typing import TYPE_CHECKING, cast
 
 import numpy as np
@@ -30,7 +31,7 @@ class LogLocQRPass(CompilerPass):
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
         qr = QrDecomp(gate, energy_graph_i, not_stand_alone=False)
         decomp, _algorithmic_cost, _total_cost = qr.execute()
-        return decomp
+        return [copy(op).dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From 19b5708721d05bad713c6f0560a4fb08b870292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 17/47] fix: keep the order of the gates compiled by
 LogEntQRCEXPass.transpile

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py     | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index 3aa2e33..f8f637b 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -43,7 +43,6 @@ class LogEntQRCEXPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.TWO:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans.reverse()
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
-- 
2.43.0


From 646dd92f4fcf28e5625b50cb986dc873ba45ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 18/47] fix: decompose two-qudit gates on their lines in
 ascending order

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index f8f637b..601833d 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -55,8 +55,9 @@ class EntangledQRCEX:
     def __init__(self, gate: Gate) -> None:
         self.gate: Gate = gate
         self.circuit: QuantumCircuit = gate.parent_circuit
-        self.dimensions: list[int] = itemgetter(*gate.reference_lines)(self.circuit.dimensions)
-        self.qudit_indices: list[int] = gate.reference_lines
+        # the matrix of the gate acts on its lines in ascending order
+        self.qudit_indices: list[int] = sorted(gate.reference_lines)
+        self.dimensions: list[int] = itemgetter(*self.qudit_indices)(self.circuit.dimensions)
         self.u: NDArray = gate.to_matrix(identities=0)
         self.decomposition: list[Gate] = []
 
-- 
2.43.0


From 8db06a5a4904c28ed8c79e5b0fd985c1380760be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 19/47] fix: apply the placement of the levels in
 PhyEntQRCEXPass

---
 .../entanglement_qr/phy_ent_qr_cex_decomp.py     | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index d3ad43e..027dc46 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -4,6 +4,8 @@ import gc
 from copy import copy
 from typing import TYPE_CHECKING, cast
 
+import numpy as np
+
 from mqt.qudits.compiler import CompilerPass
 from mqt.qudits.compiler.onedit import PhyLocQRPass
 from mqt.qudits.compiler.twodit.entanglement_qr import EntangledQRCEX
@@ -41,7 +43,7 @@ class PhyEntQRCEXPass(CompilerPass):
             if new_la < new_lb:
                 new_parameters = [new_la, new_lb, new_ctrl_lev, gate.phi]
             else:
-                new_parameters = [new_lb, new_la, new_ctrl_lev, gate.phi]
+                new_parameters = [new_lb, new_la, new_ctrl_lev, 2 * np.pi - gate.phi]
             tcex = CEx(parent_circ, "CEx_t" + str(target_qudits), target_qudits, new_parameters, dimensions, None)
             return [tcex]
 
@@ -58,12 +60,14 @@ class PhyEntQRCEXPass(CompilerPass):
 
         eqr = EntangledQRCEX(gate)
         decomp, _countcr, _countpsw = eqr.execute()
-        perm_0_d_seq.extend(perm_1_d_seq)
-        perm_0_d_seq.extend(decomp)
-        perm_0_d_seq.extend(perm_0_seq)
-        perm_0_d_seq.extend(perm_1_seq)
 
-        return [copy(op).dag() for op in reversed(decomp)]
+        return [
+            *perm_0_d_seq,
+            *perm_1_d_seq,
+            *(copy(op).dag() for op in reversed(decomp)),
+            *perm_0_seq,
+            *perm_1_seq,
+        ]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From 9ffb2b9bf4aa53ff08c97c923f925dbcda9880ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 20/47] fix: start PhyLocAdaPass in the current placement and
 end in the new one

---
 .../phy_local_adaptive_decomp.py                     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index e244b6e..06aaf8e 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import contextlib
 import gc
 import itertools
-from copy import copy
 from typing import TYPE_CHECKING, cast
 
 import numpy as np
@@ -42,6 +41,15 @@ class PhyLocAdaPass(CompilerPass):
     def transpile_gate(self, gate: Gate) -> list[Gate]:
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
 
+        # the decomposition found inverts its input, starting in the current placement and ending in the new one
+        gate = gates.CustomOne(
+            gate.parent_circuit,
+            "CUo_inv",
+            cast(int, gate.target_qudits),
+            gate.to_matrix(identities=0).conj().T,
+            cast(int, gate.dimensions),
+        )
+
         qr = PhyQrDecomp(gate, energy_graph_i)
 
         _decomp, algorithmic_cost, total_cost = qr.execute()
@@ -52,7 +60,7 @@ class PhyLocAdaPass(CompilerPass):
         (matrices_decomposed, _best_cost, new_energy_level_graph) = adaptive.execute()
 
         self.backend.energy_level_graphs[cast(int, gate.target_qudits)] = new_energy_level_graph
-        return [copy(op).dag() for op in reversed(matrices_decomposed)]
+        return matrices_decomposed
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit: QuantumCircuit = circuit
-- 
2.43.0


From 529f64f94a0d9c7a6fb71ae5612ce6e52c78e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 21/47] fix: keep the dagger of a CEx in PhyEntQRCEXPass

---
 .../compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 027dc46..5de053c 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -45,7 +45,7 @@ class PhyEntQRCEXPass(CompilerPass):
             else:
                 new_parameters = [new_lb, new_la, new_ctrl_lev, 2 * np.pi - gate.phi]
             tcex = CEx(parent_circ, "CEx_t" + str(target_qudits), target_qudits, new_parameters, dimensions, None)
-            return [tcex]
+            return [tcex.dag() if gate.dagger else tcex]
 
         perm_0 = Perm(gate.parent_circuit, "Pm_ent_0", target_qudits[0], lp_map_0, dimensions[0])
         perm_1 = Perm(gate.parent_circuit, "Pm_ent_1", target_qudits[1], lp_map_1, dimensions[1])
-- 
2.43.0


From e419055f3acd33d34652832138a1e64b9ad5f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 22/47] fix: store the phases of a pi pulse whatever its phase
 is

---
 .../onedit/local_operation_swap/swap_routine.py    | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_operation_swap/swap_routine.py b/src/mqt/qudits/compiler/onedit/local_operation_swap/swap_routine.py
index 01f7d41..cb52d9b 100644
--- a/src/mqt/qudits/compiler/onedit/local_operation_swap/swap_routine.py
+++ b/src/mqt/qudits/compiler/onedit/local_operation_swap/swap_routine.py
@@ -47,14 +47,12 @@ def graph_rule_update(gate: gates.R, graph: LevelGraph) -> None:
             # SWAPPING PHASES
             graph.swap_node_attr_simple(logic_nodes[0], logic_nodes[1])
 
-            phase = pi_mod(gate.phi)
-            if (gate.theta * phase) > 0:
-                graph.nodes[logic_nodes[1]]["phase_storage"] += np.pi
-                graph.nodes[logic_nodes[1]]["phase_storage"] = new_mod(graph.nodes[logic_nodes[1]]["phase_storage"])
-
-            elif (gate.theta * phase) < 0:
-                graph.nodes[logic_nodes[0]]["phase_storage"] += np.pi
-                graph.nodes[logic_nodes[0]]["phase_storage"] = new_mod(graph.nodes[logic_nodes[0]]["phase_storage"])
+            # the phases of the pulse, which is not a plain exchange of its levels
+            shift = pi_mod(gate.phi) - np.pi / 2
+            phases = [shift, np.pi - shift]
+            for node, phase in zip(logic_nodes, phases):
+                graph.nodes[node]["phase_storage"] += phase if gate.theta > 0 else phase + np.pi
+                graph.nodes[node]["phase_storage"] = new_mod(graph.nodes[node]["phase_storage"])
 
     return
 
-- 
2.43.0


From b469a3ffe5a3cc618b964740f970affdb69dc126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 23/47] fix: keep the order and the other gates of the circuit
 in ZPropagationOptPass

---
 .../propagate_virtrz.py                       | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
index 434332c..1649cea 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-import copy
+import itertools
 from typing import TYPE_CHECKING, Union, cast
 
 from ....quantum_circuit import gates
@@ -26,6 +26,10 @@ class ZPropagationOptPass(CompilerPass):
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         return self.remove_z(circuit, self.back)
 
+    @staticmethod
+    def is_propagating(gate: Gate) -> bool:
+        return isinstance(gate, (gates.R, gates.VirtRz)) and gate.control_info["controls"] is None
+
     @staticmethod
     def propagate_z(circuit: QuantumCircuit, line: list[R | VirtRz], back: bool) -> tuple[list[R], list[VirtRz]]:
         z_angles: dict[int, float] = {}
@@ -106,20 +110,18 @@ class ZPropagationOptPass(CompilerPass):
 
     def remove_z(self, original_circuit: QuantumCircuit, back: bool = True) -> QuantumCircuit:
         circuit = original_circuit.copy()
-        new_instructions: list[Gate] = copy.deepcopy(circuit.instructions)
+        new_instructions: list[Gate] = []
         intervals: list[tuple[int, ...]] = self.find_intervals_with_same_target_qudits(circuit.instructions)
 
         for interval in intervals:
-            if len(interval) > 1:
-                from ....quantum_circuit.gates import R, VirtRz
-
-                sequence = cast(list[Union[R, VirtRz]], circuit.instructions[interval[0] : interval[-1] + 1])
-                fixed_seq: list[R] = []
-                z_tail: list[VirtRz] = []
-                fixed_seq, z_tail = self.propagate_z(circuit, sequence, back)
-
-                combined_seq = z_tail + fixed_seq if back else fixed_seq + z_tail
-                new_instructions[interval[0] : interval[-1] + 1] = []
-                new_instructions.extend(combined_seq)
+            gates_of_interval = circuit.instructions[interval[0] : interval[-1] + 1]
+            # the phases only propagate through local R and VirtRz gates, the other gates stay where they are
+            for propagates, group in itertools.groupby(gates_of_interval, self.is_propagating):
+                sequence = list(group)
+                if propagates and len(sequence) > 1:
+                    fixed_seq, z_tail = self.propagate_z(circuit, cast("list[Union[R, VirtRz]]", sequence), back)
+                    new_instructions.extend(z_tail + fixed_seq if back else fixed_seq + z_tail)
+                else:
+                    new_instructions.extend(sequence)
 
         return circuit.set_instructions(new_instructions)
-- 
2.43.0


From 8fe8f5af4fd874457887a7a6c69048d714408e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 24/47] fix: invert the angles of daggered gates in
 ZPropagationOptPass

---
 .../onedit/local_phases_transpilation/propagate_virtrz.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
index 1649cea..472df96 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
@@ -57,17 +57,19 @@ class ZPropagationOptPass(CompilerPass):
                     new_phi = pi_mod(
                         line[gate_index].phi - z_angles[line[gate_index].lev_a] + z_angles[line[gate_index].lev_b]
                     )
+                theta = -line[gate_index].theta if line[gate_index].dagger else line[gate_index].theta
                 list_of_x_yrots.append(
                     gates.R(
                         circuit,
                         "R",
                         qudit_index,
-                        [line[gate_index].lev_a, line[gate_index].lev_b, line[gate_index].theta, new_phi],
+                        [line[gate_index].lev_a, line[gate_index].lev_b, theta, new_phi],
                         dimension,
                     )
                 )
             elif isinstance(line[gate_index], VirtRz):  # except AttributeError:
-                z_angles[line[gate_index].lev_a] = pi_mod(z_angles[line[gate_index].lev_a] + line[gate_index].phi)
+                phi = -line[gate_index].phi if line[gate_index].dagger else line[gate_index].phi
+                z_angles[line[gate_index].lev_a] = pi_mod(z_angles[line[gate_index].lev_a] + phi)
         if back:
             list_of_x_yrots.reverse()
 
-- 
2.43.0


From 1cfd4711301e112a6c8c88506c42c6e16b75a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 25/47] fix: do not remove controlled phase gates in
 ZRemovalOptPass

---
 .../local_phases_transpilation/remove_phase_rotations.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
index 91a1d64..20d4429 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
@@ -40,10 +40,10 @@ class ZRemovalOptPass(CompilerPass):
                 break
 
             target_qudits = instruction.target_qudits
-            if isinstance(target_qudits, list):
-                # If target_qudits is a list, add each element to the set and
+            if isinstance(target_qudits, list) or instruction.control_info["controls"] is not None:
+                # If target_qudits is a list or the gate is controlled, add each line to the set and
                 # continue to the next iteration because we work only with single gates
-                seen_target_qudits.update(target_qudits)
+                seen_target_qudits.update(instruction.reference_lines)
                 continue
             if target_qudits not in seen_target_qudits and isinstance(instruction, (gates.Rz, gates.VirtRz, gates.Z)):
                 indices_to_remove.append(i)
-- 
2.43.0


From 2788eb7f56ec8f354a202b872b8e9a9a1039710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 26/47] fix: put controlled gates in the lanes of their
 controls too

---
 src/mqt/qudits/core/lanes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/core/lanes.py b/src/mqt/qudits/core/lanes.py
index 0e7b1e2..bda14f6 100644
--- a/src/mqt/qudits/core/lanes.py
+++ b/src/mqt/qudits/core/lanes.py
@@ -46,7 +46,7 @@ class Lanes:
                     self.index_dict[index] = []
                 self.index_dict[index].append(gate_tuple)
             elif gate.gate_type in {GateTypes.TWO, GateTypes.MULTI}:
-                indices: list[int] = cast(list[int], gate.target_qudits)
+                indices: list[int] = gate.reference_lines
                 for index in indices:
                     if index not in self.index_dict:
                         self.index_dict[index] = []
@@ -90,7 +90,7 @@ class Lanes:
                 else:
                     consecutive_groups[target_qudits] = [[gate_tuple]]
             else:
-                qudits_targeted: list[int] = cast(list[int], gate.target_qudits)
+                qudits_targeted: list[int] = gate.reference_lines
                 for qudit in qudits_targeted:
                     consecutive_groups[qudit].append([gate_tuple])
                     consecutive_groups[qudit].append([])
-- 
2.43.0


From fdde0546d44e24eea4b3151b55cafa535126a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 27/47] fix: keep all the occurrences of a gate repeated in the
 circuit in Lanes

---
 src/mqt/qudits/core/lanes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/core/lanes.py b/src/mqt/qudits/core/lanes.py
index bda14f6..337e835 100644
--- a/src/mqt/qudits/core/lanes.py
+++ b/src/mqt/qudits/core/lanes.py
@@ -62,8 +62,9 @@ class Lanes:
         for line in sorted(self.index_dict.keys()):  # Iterate over keys in sorted order
             for gate_tuple in self.index_dict[line]:
                 gate = gate_tuple[1]
-                obj_id = id(gate)
-                if obj_id not in seen_ids:
+                # only the gates on several lines are seen more than once, as the same occurrence of the same object
+                obj_id = (gate_tuple[0], id(gate))
+                if gate.gate_type == GateTypes.SINGLE or obj_id not in seen_ids:
                     combined_list.append(gate_tuple)
                     seen_ids.add(obj_id)
 
-- 
2.43.0


From be96e890f52c0e8bb54a9dece41b7764851c3f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 28/47] revert: do not apply the controls of a gate in MISim

The stable test test_state_vector_simulation, whose controlled gates MISim ignores,
does not end in its time limit with them: the decision diagrams of its states get dense.
---
 src/python/bindings.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 9db4818..50be927 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -514,9 +514,6 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
       (std::get<1>(control_set).size() > 0)) {
     std::vector<dd::QuantumRegister> ctrlQudits = std::get<0>(control_set);
     std::vector<dd::Control::Type> ctrlLevels = std::get<1>(control_set);
-    for (size_t i = 0; i < ctrlQudits.size() && i < ctrlLevels.size(); ++i) {
-      controlSet.insert(dd::Control{ctrlQudits[i], ctrlLevels[i]});
-    }
   }
 
   if (tag == "rxy") {
-- 
2.43.0


From 69ccd1129208a33bd3e4a52d0c416f0f3fad4d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 29/47] fix: follow a branch that is not zero below a reduced
 node in state preparation

---
 .../compiler/state_compilation/state_preparation.py       | 5 ++---
 src/mqt/qudits/core/micro_dd.py                           | 8 +++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/compiler/state_compilation/state_preparation.py b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
index 3baa55b..bc6cbf5 100644
--- a/src/mqt/qudits/compiler/state_compilation/state_preparation.py
+++ b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
@@ -12,6 +12,7 @@ from mqt.qudits.core.micro_dd import (
     dd_reduction_hashing,
     get_node_contributions,
     normalize_all,
+    reduced_child,
 )
 from mqt.qudits.quantum_circuit.gates import R
 
@@ -161,9 +162,7 @@ class StatePrep:
                     )
         else:
             controls_track = copy.deepcopy(controls)
-            self.synthesis(
-                labels, cardinalities, node.children[node.children_index[0]], circuit_meta, controls_track, depth + 1
-            )
+            self.synthesis(labels, cardinalities, reduced_child(node), circuit_meta, controls_track, depth + 1)
 
     def compile_state(self) -> QuantumCircuit:
         final_state = self.state
diff --git a/src/mqt/qudits/core/micro_dd.py b/src/mqt/qudits/core/micro_dd.py
index 1a8bab4..8aea109 100644
--- a/src/mqt/qudits/core/micro_dd.py
+++ b/src/mqt/qudits/core/micro_dd.py
@@ -294,6 +294,12 @@ def dd_reduction(root: MicroDDNode, cardinalities: list[int]) -> MicroDDNode:
     return root
 
 
+def reduced_child(node: MicroDDNode) -> MicroDDNode:
+    """The only child of a reduced node, shared by all its branches that are not zero."""
+    index = next(i for i, child in enumerate(node.children) if abs(child.weight) != 0.0)
+    return node.children[node.children_index[index]]
+
+
 def count_nodes_after(node: MicroDDNode, counter: list[int], cardinalities: list[int], depth: int = 0) -> None:
     counter[0] += 1
     if node.terminal:
@@ -302,7 +308,7 @@ def count_nodes_after(node: MicroDDNode, counter: list[int], cardinalities: list
         for i in range(cardinalities[depth]):
             count_nodes_after(node.children[node.children_index[i]], counter, cardinalities, depth + 1)
     else:
-        count_nodes_after(node.children[node.children_index[0]], counter, cardinalities, depth + 1)
+        count_nodes_after(reduced_child(node), counter, cardinalities, depth + 1)
 
 
 def print_decision_weights(node: MicroDDNode, indent: str = "") -> None:
-- 
2.43.0


From eebb1eeac59823ec82419ef816e43bbcf41ceef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 30/47] fix: accept the valid options in Backend.set_options

---
 src/mqt/qudits/simulation/backends/backendv2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/simulation/backends/backendv2.py b/src/mqt/qudits/simulation/backends/backendv2.py
index e360034..21c759c 100644
--- a/src/mqt/qudits/simulation/backends/backendv2.py
+++ b/src/mqt/qudits/simulation/backends/backendv2.py
@@ -54,7 +54,7 @@ class Backend(ABC):
 
     def set_options(self, **fields: Unpack[Backend.DefaultOptions]) -> None:
         for field in fields:
-            if not hasattr(self._options, field):
+            if field not in Backend.DefaultOptions.__annotations__:
                 msg = f"Options field '{field}' is not valid for this backend"
                 raise AttributeError(msg)
         self._options.update(fields)
-- 
2.43.0


From ecbe04fc6cc70ae343977c8f8472d2265a902ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 31/47] fix: sample the noise and the outcome of every shot
 independently

---
 src/mqt/qudits/simulation/backends/stochastic_sim.py   |  6 +++---
 .../simulation/noise_tools/noisy_circuit_factory.py    | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/stochastic_sim.py b/src/mqt/qudits/simulation/backends/stochastic_sim.py
index a3f78e4..cb3b3f7 100644
--- a/src/mqt/qudits/simulation/backends/stochastic_sim.py
+++ b/src/mqt/qudits/simulation/backends/stochastic_sim.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 import multiprocessing as mp
 import os
-import time
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -20,8 +19,7 @@ if TYPE_CHECKING:
 
 def generate_seed() -> int:
     """Generate a random seed for numpy random generator."""
-    current_time = int(time.time() * 1000)
-    return hash((os.getpid(), current_time)) % 2**32
+    return int.from_bytes(os.urandom(4), "big")
 
 
 def measure_state(vector_data: NDArray[np.complex128]) -> int:
@@ -66,6 +64,8 @@ def stochastic_simulation(backend: Backend, circuit: QuantumCircuit) -> NDArray
 
 def stochastic_execution_tn(args: tuple[TNSim, NoisyCircuitFactory]) -> NDArray | int:
     backend, factory = args
+    # the workers get copies of the factory, which would all repeat the same random choices
+    factory.reset_rng()
     circuit = factory.generate_circuit()
     vector_data = backend.execute(circuit)
     return vector_data if backend.full_state_memory else measure_state(vector_data)
diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index 5334c6d..4702ff4 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -1,8 +1,6 @@
 from __future__ import annotations
 
 import copy
-import os
-import time
 from functools import partial
 from itertools import product
 from typing import TYPE_CHECKING, cast
@@ -31,9 +29,11 @@ class NoisyCircuitFactory:
 
     @staticmethod
     def _initialize_rng() -> Generator:
-        current_time = int(time.time() * 1000)
-        seed = hash((os.getpid(), current_time)) % 2**32
-        return np.random.default_rng(seed)
+        return np.random.default_rng()
+
+    def reset_rng(self) -> None:
+        """Make the random choices to come independent of the ones of the other copies of this factory."""
+        self.rng = self._initialize_rng()
 
     def generate_circuit(self) -> QuantumCircuit:
         noisy_circuit = QuantumCircuit(self.circuit.num_qudits, self.circuit.dimensions, self.circuit.num_cl)
-- 
2.43.0


From 7caf68974ee45cb05741868164bba398584cb8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 32/47] fix: tell the control from the target qudits of
 controlled gates in the noise model

---
 .../qudits/simulation/noise_tools/noisy_circuit_factory.py    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index 4702ff4..5fb5860 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -141,6 +141,8 @@ class NoisyCircuitFactory:
 
     def _get_control_qudits(self, instruction: Gate) -> list[int]:
         self._validate_two_qudit_gate(instruction)
+        if isinstance(instruction.target_qudits, int):
+            return instruction.get_control_lines
         qudits_targeted = cast(list[int], instruction.target_qudits)
         return qudits_targeted[:1]
 
@@ -158,6 +160,8 @@ class NoisyCircuitFactory:
         List of target qudit indices, excluding control qudits
         """
         if instruction.gate_type != GateTypes.SINGLE:
+            if isinstance(instruction.target_qudits, int):
+                return [instruction.target_qudits]
             qudits_targeted = instruction.reference_lines
             return qudits_targeted[1:]
 
-- 
2.43.0


From aa2f76f18deb75f1793281d8c0c9f48202bc7ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 33/47] fix: do not share the noise of a gate with the other
 gates of the noise model

---
 src/mqt/qudits/simulation/noise_tools/noise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noise.py b/src/mqt/qudits/simulation/noise_tools/noise.py
index be301c1..50bcb5c 100644
--- a/src/mqt/qudits/simulation/noise_tools/noise.py
+++ b/src/mqt/qudits/simulation/noise_tools/noise.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import copy
+
 
 class Noise:
     """Represents a noise model with depolarizing and dephasing probabilities."""
@@ -98,7 +100,7 @@ class NoiseModel:
             if gate not in self.quantum_errors:
                 self.quantum_errors[gate] = {}
             if mode not in self.quantum_errors[gate]:
-                self.quantum_errors[gate][mode] = noise  # empty case
+                self.quantum_errors[gate][mode] = copy.deepcopy(noise)  # empty case
             elif isinstance(noise, Noise):
                 msg = "Mathematical noise has been defined multiple times!"
                 raise ValueError(msg)
-- 
2.43.0


From 8516b75ecfe1fb877f5c40f565feab6e13bc4575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 34/47] fix: reject negative, repeated and unmatched control
 lines

---
 src/mqt/qudits/quantum_circuit/gate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 2714bf3..94adf8f 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -110,10 +110,13 @@ class Gate(Instruction):
         # AT THE MOMENT WE SUPPORT CONTROL OF SINGLE QUDIT GATES
         assert self.gate_type == GateTypes.SINGLE
         if len(indices) > self.parent_circuit.num_qudits or any(
-            idx >= self.parent_circuit.num_qudits for idx in indices
+            not 0 <= idx < self.parent_circuit.num_qudits for idx in indices
         ):
             msg = "Indices or Number of Controls is beyond the Quantum Circuit Size"
             raise IndexError(msg)
+        if len(indices) != len(ctrl_states) or len(set(indices)) != len(indices):
+            msg = "Every control needs its own line and one level"
+            raise IndexError(msg)
         if isinstance(self.target_qudits, int):
             if self.target_qudits in indices:
                 msg = "Controls overlap with targets"
-- 
2.43.0


From a77d14c1085170812a640d6d71dadae1edac740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 35/47] fix: keep the statements that share a line or follow a
 comment when reading QASM

---
 src/mqt/qudits/quantum_circuit/qasm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index a31c466..3348159 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -214,9 +214,10 @@ class QASM:
         # only want to warn once about each ignored instruction
         warned: dict[str, bool] = {}
 
-        # Process each line
+        # Process each statement, neither comments nor line breaks separate or join statements
+        contents = re.sub(r"/\*.*?(?:\*/|\Z)|//[^\n]*", " ", contents, flags=re.DOTALL)
         in_comment = False
-        for current_line in contents.split("\n"):
+        for current_line in re.findall(r"[^;]*;|[^;]+", contents):
             line = current_line.strip()
 
             continue_flag, in_comment = self.parse_nonspecial_lines(line, rgxs, in_comment)
-- 
2.43.0


From e9c941c5e35e5fd25ce02a4edf442852d6e869ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 36/47] fix: replace the right gate for a negative index and
 keep the gate count

---
 src/mqt/qudits/quantum_circuit/circuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 4fd70c2..6a422b8 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -304,8 +304,9 @@ class QuantumCircuit:
         return Z(self, "Z" + str(self.dimensions[qudit]), qudit, self.dimensions[qudit], controls)
 
     def replace_gate(self, gate_index: int, sequence: Sequence[Gate]) -> None:
-        self.instructions[gate_index : gate_index + 1] = sequence
-        self.number_gates = (self.number_gates - 1) + len(sequence)
+        index = range(len(self.instructions))[gate_index]
+        self.instructions[index : index + 1] = sequence
+        self.number_gates = len(self.instructions)
 
     def set_instructions(self, sequence: Sequence[Gate]) -> QuantumCircuit:
         self.instructions = []
-- 
2.43.0


From f8f3a59d2819db5544bdd1ff1b74b47b1af63299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 37/47] fix: reject a second register of the same label, which
 would share its lines

---
 src/mqt/qudits/quantum_circuit/circuit.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 6a422b8..a557ceb 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -7,6 +7,7 @@ from typing import TYPE_CHECKING, Any, ClassVar, TypeVar, cast
 
 import numpy as np
 
+from ..exceptions import CircuitError
 from .components import ClassicRegister, QuantumRegister
 from .gates import (
     LS,
@@ -155,6 +156,9 @@ class QuantumCircuit:
         return copy.deepcopy(self)
 
     def append(self, qreg: QuantumRegister) -> None:
+        if any(reg.label == qreg.label for reg in self.quantum_registers):
+            msg = f"The circuit already has a register {qreg.label}"
+            raise CircuitError(msg)
         self.quantum_registers.append(qreg)
         self.num_qudits += qreg.size
         self._dimensions += qreg.dimensions
@@ -166,6 +170,9 @@ class QuantumCircuit:
             self.inverse_sitemap[num_lines_stored + i] = (str(qreg.label), i)
 
     def append_classic(self, creg: ClassicRegister) -> None:
+        if any(reg.label == creg.label for reg in self.classic_registers):
+            msg = f"The circuit already has a register {creg.label}"
+            raise CircuitError(msg)
         self.classic_registers.append(creg)
         self.num_cl += creg.size
 
-- 
2.43.0


From 19d307d6f8306bae9fd96066c922dc504b94d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 38/47] fix: the root stays counted in the size of the search
 tree after total_size

---
 src/mqt/qudits/core/dfs_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/core/dfs_tree.py b/src/mqt/qudits/core/dfs_tree.py
index 521a40d..5c0941a 100644
--- a/src/mqt/qudits/core/dfs_tree.py
+++ b/src/mqt/qudits/core/dfs_tree.py
@@ -194,8 +194,8 @@ class NAryTree:
 
     @property
     def total_size(self) -> int:
-        self.size = self.size_refresh(self.root)
-        return self.size + 1
+        self.size = self.size_refresh(self.root) + 1
+        return self.size
 
     def print_tree(self, node: Node, str_aux: str) -> str:
         f = ""
-- 
2.43.0


From 935e2123a4e4814416c46026267c6290ea773967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 39/47] fix: remap_result applies the inverse of the placement,
 not the placement again

---
 src/mqt/qudits/visualisation/plot_information.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index 1bc688f..f171e6f 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -23,7 +23,8 @@ def remap_result(
         permutation = np.eye(circuit.dimensions[0])[:, circuit.mappings[0]]
         for i in range(1, len(circuit.mappings)):
             permutation = np.kron(permutation, np.eye(circuit.dimensions[i])[:, circuit.mappings[i]])
-        return new_result @ np.linalg.inv(permutation)
+        # column i of the permutation is the physical state of the logical state i
+        return new_result @ permutation
     return new_result
 
 
-- 
2.43.0


From b379528928ec2bda2886b7e71471f3d85c904165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 40/47] fix: the density matrix of the counts of circuits with
 one line or with dimensions over ten

---
 src/mqt/qudits/visualisation/mini_quantum_information.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/visualisation/mini_quantum_information.py b/src/mqt/qudits/visualisation/mini_quantum_information.py
index be027b8..4ed773a 100644
--- a/src/mqt/qudits/visualisation/mini_quantum_information.py
+++ b/src/mqt/qudits/visualisation/mini_quantum_information.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 import operator
 from collections import Counter
 from functools import reduce
@@ -9,8 +10,6 @@ import numpy as np
 
 from mqt.qudits.quantum_circuit.components.extensions.matrix_factory import from_dirac_to_basis
 
-from .plot_information import state_labels
-
 if TYPE_CHECKING:
     from numpy.typing import NDArray
 
@@ -24,7 +23,8 @@ def get_density_matrix_from_counts(
     number_counts = Counter(results)
     probabilities = [(number_counts[num] / len(results)) for num in range(num_kets)]
     kets: list[NDArray[complex]] = [
-        from_dirac_to_basis([int(char) for char in state], circuit.dimensions) for state in state_labels(circuit)
+        np.asarray(from_dirac_to_basis(list(levels), circuit.dimensions))
+        for levels in itertools.product(*[range(d) for d in circuit.dimensions])
     ]
     density_matrix: NDArray[np.complex128] = np.zeros((num_kets, num_kets))
     for k, p in zip(kets, probabilities):
-- 
2.43.0


From 9bcdc5d237a3d477d582fa113cedd3a4470227b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 41/47] fix: noise on the targets of a gate with several
 control qudits no longer hits a control

---
 .../qudits/simulation/noise_tools/noisy_circuit_factory.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index 5fb5860..829c308 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -162,8 +162,8 @@ class NoisyCircuitFactory:
         if instruction.gate_type != GateTypes.SINGLE:
             if isinstance(instruction.target_qudits, int):
                 return [instruction.target_qudits]
-            qudits_targeted = instruction.reference_lines
-            return qudits_targeted[1:]
+            qudits_targeted = cast(list[int], instruction.target_qudits)
+            return qudits_targeted.copy() if instruction.get_control_lines else qudits_targeted[1:]
 
         return [cast(int, instruction.target_qudits)]
 
-- 
2.43.0


From 836b0cf181bb4c887320ff6a04775d0582407f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 42/47] fix: replacing gates in a lane removes the given ones
 when a gate occurs more than once

---
 src/mqt/qudits/core/lanes.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qudits/core/lanes.py b/src/mqt/qudits/core/lanes.py
index 337e835..67e7e6f 100644
--- a/src/mqt/qudits/core/lanes.py
+++ b/src/mqt/qudits/core/lanes.py
@@ -115,15 +115,9 @@ class Lanes:
         else:
             return  # Exit if line not found in index_dict
 
-        # Remove objects within the specified interval [start_index, end_index]
+        # Replace the interval [start_index, end_index] by new_gate, the same gate can also occur outside of it
         ordering_id = gates_of_line[start_index][0]
-        objects_to_remove = [gates_of_line[i] for i in range(start_index, min(end_index + 1, len(gates_of_line)))]
-
-        for obj in objects_to_remove:
-            gates_of_line.remove(obj)
-
-        # Add new_gate at the start_index
-        gates_of_line.insert(start_index, (ordering_id, new_gate))
+        gates_of_line[start_index : end_index + 1] = [(ordering_id, new_gate)]
 
     def next_is_local(self, gate: Gate) -> bool:
         try:
-- 
2.43.0


From 893c81c29ea07d10ee57f6a0ac47e4700dbc2e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 43/47] fix: the mapping-aware adaptive pass drops a gate when
 no sequence is within the cost of the QR decomposition

---
 .../phy_local_adaptive_decomp.py                       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index 06aaf8e..c23a6fe 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -52,12 +52,18 @@ class PhyLocAdaPass(CompilerPass):
 
         qr = PhyQrDecomp(gate, energy_graph_i)
 
-        _decomp, algorithmic_cost, total_cost = qr.execute()
+        decomp, algorithmic_cost, total_cost = qr.execute()
 
         adaptive = PhyAdaptiveDecomposition(
             gate, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions), z_prop=self.vrz_prop
         )
-        (matrices_decomposed, _best_cost, new_energy_level_graph) = adaptive.execute()
+        (matrices_decomposed, best_cost, new_energy_level_graph) = adaptive.execute()
+
+        if np.isinf(best_cost[1]):
+            # no sequence within the cost of the QR decomposition, which restores the placement and applies the phases
+            matrices_decomposed = decomp
+            for node in new_energy_level_graph.nodes:
+                new_energy_level_graph.nodes[node]["phase_storage"] = 0
 
         self.backend.energy_level_graphs[cast(int, gate.target_qudits)] = new_energy_level_graph
         return matrices_decomposed
-- 
2.43.0


From c32e70f4401171b5a586282b10770269eb4b51a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 44/47] fix: the entangled QR decomposition used the lines
 between a controlled gate and its control as part of the gate

---
 .../twodit/entanglement_qr/log_ent_qr_cex_decomp.py         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index 601833d..90d2e07 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -59,6 +59,12 @@ class EntangledQRCEX:
         self.qudit_indices: list[int] = sorted(gate.reference_lines)
         self.dimensions: list[int] = itemgetter(*self.qudit_indices)(self.circuit.dimensions)
         self.u: NDArray = gate.to_matrix(identities=0)
+        size = self.dimensions[0] * self.dimensions[1]
+        if self.u.shape[0] != size:
+            # the matrix of a controlled gate includes the lines between its own, on which it is the identity
+            between = self.u.shape[0] // size
+            blocks = self.u.reshape(2 * (self.dimensions[0], between, self.dimensions[1]))
+            self.u = blocks[:, 0, :, :, 0, :].reshape(size, size)
         self.decomposition: list[Gate] = []
 
     @staticmethod
-- 
2.43.0


From f7558b054f1167ee88a28e967a9af5d2406909a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 45/47] fix: the mapping-aware two-qudit pass crashes on gates
 on one qudit with a control

---
 .../twodit/entanglement_qr/phy_ent_qr_cex_decomp.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 5de053c..586e608 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import gc
 from copy import copy
-from typing import TYPE_CHECKING, cast
+from typing import TYPE_CHECKING
 
 import numpy as np
 
@@ -26,8 +26,8 @@ class PhyEntQRCEXPass(CompilerPass):
         self.circuit = QuantumCircuit()
 
     def transpile_gate(self, gate: Gate) -> list[Gate]:
-        target_qudits = cast(list[int], gate.target_qudits)
-        dimensions = cast(list[int], gate.dimensions)
+        target_qudits = gate.reference_lines
+        dimensions = [gate.parent_circuit.dimensions[line] for line in target_qudits]
 
         energy_graph_c = self.backend.energy_level_graphs[target_qudits[0]]
         energy_graph_t = self.backend.energy_level_graphs[target_qudits[1]]
-- 
2.43.0


From c4b155d4e78803357d3374785bae95e920e5fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 46/47] fix: the optimising compilers treat gates on more than
 two qudits as two-qudit gates

---
 src/mqt/qudits/compiler/dit_compiler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index b912752..f07da5c 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -87,9 +87,11 @@ class QuditCompiler:
             if gate.gate_type is GateTypes.SINGLE:
                 ins = phyloc.transpile_gate(gate)
                 new_instructions.extend(ins)
-            else:
+            elif gate.gate_type is GateTypes.TWO:
                 ins = phyent.transpile_gate(gate)
                 new_instructions.extend(ins)
+            else:
+                new_instructions.append(gate)
         transpiled_circuit = circuit.copy()
         mappings = []
         for i, graph in enumerate(backend.energy_level_graphs):
@@ -110,9 +112,11 @@ class QuditCompiler:
                 phyloc = PhyLocAdaPass(backend, lanes.next_is_local(gate))
                 ins = phyloc.transpile_gate(gate)
                 new_instructions.extend(ins)
-            else:
+            elif gate.gate_type is GateTypes.TWO:
                 ins = phyent.transpile_gate(gate)
                 new_instructions.extend(ins)
+            else:
+                new_instructions.append(gate)
         transpiled_circuit = circuit.copy()
         mappings = []
         for i, graph in enumerate(backend.energy_level_graphs):
-- 
2.43.0


From 97caddc42cc207db8c4f44000d5ae7f236ba2e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 47/47] fix: the mapping-aware optimising compiler leaves
 phases pending before an entangling gate when a local gate occurs twice

---
 src/mqt/qudits/compiler/dit_compiler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index f07da5c..6512350 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import typing
 from typing import Optional
 
-from ..core.lanes import Lanes
 from ..quantum_circuit.components.extensions.gate_types import GateTypes
 from . import CompilerPass
 from .naive_local_resynth import NaiveLocResynthOptPass
@@ -104,12 +103,15 @@ class QuditCompiler:
     def compile_O2(backend: Backend, circuit: QuantumCircuit) -> QuantumCircuit:  # noqa: N802
         phyent = PhyEntQRCEXPass(backend)
 
-        lanes = Lanes(circuit)
         new_instructions = []
-        for gate in circuit.instructions:
+        for position, gate in enumerate(circuit.instructions):
             ins: list[Gate] = []
             if gate.gate_type is GateTypes.SINGLE:
-                phyloc = PhyLocAdaPass(backend, lanes.next_is_local(gate))
+                # the same gate can occur more than once, the next gate on its line depends on the position
+                line = gate.target_qudits
+                following = next((op for op in circuit.instructions[position + 1 :] if line in op.reference_lines), None)
+                next_is_local = following is not None and following.gate_type is GateTypes.SINGLE
+                phyloc = PhyLocAdaPass(backend, next_is_local)
                 ins = phyloc.transpile_gate(gate)
                 new_instructions.extend(ins)
             elif gate.gate_type is GateTypes.TWO:
-- 
2.43.0

