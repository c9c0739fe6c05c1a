From 2c4aaf101c9b3ed4ab7f64d39eb1b9d3e67edf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:20 +0000
Subject: [PATCH 001/150] fix: assign control state of controlled global phases
 to the right controls

The definition circuit of a controlled gphase applied the first character of
the control state to the last control and shifted the others, so it disagreed
with the unitary for mixed control states.
---
 src/qrisp/circuit/operation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 0be1812..35cb135 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -679,17 +679,17 @@ class PTControlledOperation(Operation):
 
             if num_ctrl_qubits > 1:
                 temp_gate = PGate(base_operation.params[0]).control(
-                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[1:], method=method
+                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[:-1], method=method
                 )
             else:
                 temp_gate = PGate(base_operation.params[0])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
             definition_circ.append(temp_gate, definition_circ.qubits[:num_ctrl_qubits])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
         elif self.base_operation.name == "gray_phase_gate":
-- 
2.43.0


From cf2889e7eea05d0dba8ae49316b6eabdcb27b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:20 +0000
Subject: [PATCH 002/150] fix: correct sign of multi-controlled Y gates

Conjugating X with S followed by its adjoint in this order yields -Y, so Y
gates with more than one control carried a relative phase of -1.
---
 src/qrisp/circuit/controlled_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/controlled_operations.py b/src/qrisp/circuit/controlled_operations.py
index 07dde7d..88ddbb0 100644
--- a/src/qrisp/circuit/controlled_operations.py
+++ b/src/qrisp/circuit/controlled_operations.py
@@ -134,9 +134,9 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
 
     # Treat pauli gates
     elif u3_gate.name == "y":
-        qc.s(target_qubit)
-        qc.append(XGate().control(control_amount, method=method), qc.qubits)
         qc.s_dg(target_qubit)
+        qc.append(XGate().control(control_amount, method=method), qc.qubits)
+        qc.s(target_qubit)
 
     elif u3_gate.name == "z":
         qc.h(target_qubit)
-- 
2.43.0


From 48519c2578aa3182f64adbd7efad8907914ebfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:40 +0000
Subject: [PATCH 003/150] fix: keep the parameter list of r and u1 gates when
 binding parameters

Binding replaced [theta, phi] resp. [phi] by the three Euler angles, so the
bound gate was exported with the wrong arguments.
---
 src/qrisp/circuit/operation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 35cb135..1a174f9 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -464,10 +464,12 @@ class U3Gate(Operation):
             self.permeability[0] = True
             self.is_qfree = True
             self.params = [self.lam + self.phi]
-        elif self.name == "rz":
+        elif self.name in ["rz", "u1"]:
             self.permeability[0] = True
             self.is_qfree = True
             self.params = [self.lam + self.phi]
+        elif self.name == "r":
+            self.params = [-self.theta, self.phi]
         elif self.name in ["rx", "ry"]:
             self.permeability[0] = False
             self.is_qfree = False
-- 
2.43.0


From 1b063a229640d2efa39850e77373895e7715324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:54 +0000
Subject: [PATCH 004/150] fix: keep the names of inverted r, u1 and id gates

The inverse of these gates is again a gate of the same kind, but it was
renamed to r_dg, u1_dg or id_dg, which no converter understands.
---
 src/qrisp/circuit/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 1a174f9..fbd1c91 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -492,7 +492,7 @@ class U3Gate(Operation):
         # The inverse of a product of matrices if the reverted product of the inverses,
         # i.e. (A*B*C)^(-1) = C^-1 * B^-1 * A^-1
 
-        if self.name in ["p", "rz", "rx", "ry", "gphase", "h"]:
+        if self.name in ["p", "rz", "u1", "r", "rx", "ry", "gphase", "h", "id"]:
             new_name = str(self.name)
         elif self.name[-3:] == "_dg":
             new_name = self.name[:-3]
-- 
2.43.0


From 8acb6eecd69266533b88673f98515f114d26c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:09 +0000
Subject: [PATCH 005/150] fix: export r gates to Qiskit with the matching
 rotation axis

---
 src/qrisp/interface/converter/qiskit_converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index b59daa4..29e38ec 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -243,7 +243,8 @@ def create_qiskit_instruction(op, params=[]):
     elif op.name == "u3":
         qiskit_ins = qsk_gates.U3Gate(*params)
     elif op.name == "r":
-        qiskit_ins = qsk_gates.RGate(*params)
+        # Qrisp's r(theta, phi) rotates around the axis that Qiskit calls phi - pi/2
+        qiskit_ins = qsk_gates.RGate(params[0], params[1] - np.pi / 2)
     elif isinstance(op, PRXGate):
         qiskit_ins = qsk_gates.RGate(op.alpha, op.beta)
     elif op.name == "id":
-- 
2.43.0


From a1a7e9f390124d8196fe86937b83a8d050028d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:51 +0000
Subject: [PATCH 006/150] fix: undo phases of the conditionally clean ancilla
 mcx with four controls

The phase tolerant Toffolis were undone with swapped controls, which left
relative phases on the control qubits.
---
 src/qrisp/alg_primitives/mcx_algs/khattar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/khattar.py b/src/qrisp/alg_primitives/mcx_algs/khattar.py
index bf81040..c978bc2 100644
--- a/src/qrisp/alg_primitives/mcx_algs/khattar.py
+++ b/src/qrisp/alg_primitives/mcx_algs/khattar.py
@@ -113,9 +113,9 @@ def cca_4ctrls(ctrls, target):
 
     mcx([ctrls[1], cca4_anc[0]], target[0])
 
-    mcx([ctrls[2], ctrls[3]], ctrls[1], method="gray_pt")
+    mcx([ctrls[3], ctrls[2]], ctrls[1], method="gray_pt_inv")
     x(ctrls[1])
-    mcx([ctrls[0], ctrls[1]], cca4_anc[0], method="gray_pt")
+    mcx([ctrls[1], ctrls[0]], cca4_anc[0], method="gray_pt_inv")
 
     cca4_anc.delete()
 
-- 
2.43.0


From 757742ddcd752f54e92bf34e8733e1e28692e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:36 +0000
Subject: [PATCH 007/150] fix: carry out resets that are followed by permeable
 operations in the simulator

A reset qubit that was only used by operations permeable on it (for instance
a measurement or the control of a cx) kept its old value.
---
 src/qrisp/simulator/circuit_preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index ea9f8a2..f3477ff 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -781,10 +781,10 @@ def insert_multiverse_measurements(qc):
             meas_qubit = instr.qubits[0]
             new_data.append(Instruction(Disentangler(warning=False), [meas_qubit]))
 
+            # The reset only has to be carried out if the qubit is used afterwards
             for j in range(len(data)):
                 if meas_qubit in data[j].qubits:
-                    if not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
-                        break
+                    break
             else:
                 continue
 
-- 
2.43.0


From 88c32843112e5be3c20d1f19bfa4e7abe5599811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:36 +0000
Subject: [PATCH 008/150] fix: do not move a reset in front of operations that
 use the measured qubit

---
 src/qrisp/simulator/circuit_preprocessing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index f3477ff..910949e 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -744,13 +744,16 @@ def insert_multiverse_measurements(qc):
             meas_clbit = instr.clbits[0]
 
             next_instr_is_reset = False
+            qubit_used_before_reset = False
             for j in range(len(data)):
                 if meas_qubit in data[j].qubits:
                     if data[j].op.name == "reset":
-                        next_instr_is_reset = True
-                        data.pop(j)
+                        if not qubit_used_before_reset:
+                            next_instr_is_reset = True
+                            data.pop(j)
                         break
-                    elif not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
+                    qubit_used_before_reset = True
+                    if not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
                         break
                 if meas_clbit in data[j].clbits and not isinstance(data[j], ClControlledOperation):
                     break
-- 
2.43.0


From 5a578a7f319db063ae153d67ff3b6da175d580a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:36 +0000
Subject: [PATCH 009/150] fix: report only the last outcome of repeatedly
 measured classical bits

---
 src/qrisp/simulator/circuit_preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index 910949e..39fb429 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -766,6 +766,8 @@ def insert_multiverse_measurements(qc):
             else:
                 new_data.append(Instruction(disentangler, [meas_qubit]))
                 new_measurements.append((instr.qubits[0], instr.clbits[0]))
+                # An earlier outcome stored in this clbit is overwritten
+                cb_to_qb_dic.pop(meas_clbit, None)
                 continue
 
             qb = qc.add_qubit()
-- 
2.43.0


From 106047947341230a950a72043b2c454feb592c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:36 +0000
Subject: [PATCH 010/150] fix: keep multi-qubit conditional operations in order
 when grouping instructions

Non-unitary instructions are encoded as negative qubit masks, which have to
be negated before they are intersected with other masks.
---
 src/qrisp/simulator/circuit_preprocessing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index 39fb429..d719f43 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -565,7 +565,7 @@ def binary_get_circuit_block_jitted(int_qc_list, qubits, n, established_indices)
         # Determine the intersection between the qubits of the instruction
         # and the qubits of the group
         # intersection = instr_qubits.intersection(qubits)
-        intersection = qubits & instr_qubits
+        intersection = qubits & abs(instr_qubits)
 
         # If the intersection is empty, this instruction is not part of the group
         # and no further action needs to be taken
@@ -627,7 +627,7 @@ def binary_get_circuit_block(int_qc_list, qubits, n, established_indices):
         # Determine the intersection between the qubits of the instruction
         # and the qubits of the group
         # intersection = instr_qubits.intersection(qubits)
-        intersection = qubits & instr_qubits
+        intersection = qubits & abs(instr_qubits)
 
         # If the intersection is empty, this instruction is not part of the group
         # and no further action needs to be taken
@@ -637,7 +637,7 @@ def binary_get_circuit_block(int_qc_list, qubits, n, established_indices):
         # If the instruction is non-unitary, no further instruction
         # on this qubit can be part of the group
         if instr_qubits < 0:
-            qubits = qubits & (((1 << n) - 1) ^ instr_qubits)
+            qubits = qubits & (((1 << n) - 1) ^ (-instr_qubits))
             # qubits = qubits - instr_qubits
             continue
 
-- 
2.43.0


From 97160adfb6546d4449f7bb770cc58c95eb25d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:36 +0000
Subject: [PATCH 011/150] fix: determine permeability of classically controlled
 operations from their base

---
 src/qrisp/permeability/type_checker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qrisp/permeability/type_checker.py b/src/qrisp/permeability/type_checker.py
index 1987f75..31242c3 100644
--- a/src/qrisp/permeability/type_checker.py
+++ b/src/qrisp/permeability/type_checker.py
@@ -46,6 +46,12 @@ import sympy as sp
 
 # We then check the diagonality of this matrix and return True if so
 def is_permeable(gate, qubit_indices):
+    from qrisp.circuit import ClControlledOperation
+
+    # The permeability of a classically controlled operation is that of its base
+    if isinstance(gate, ClControlledOperation):
+        return is_permeable(gate.base_op, qubit_indices)
+
     for i in qubit_indices:
         if gate.permeability[i] is False:
             return False
-- 
2.43.0


From 4a20061d26c2d938f3909f039531575cf5b93fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:13 +0000
Subject: [PATCH 012/150] fix: respect the control state when converting
 two-qubit gates to cx or cz

---
 .../pass_management/passes/convert_to_cx.py        | 14 +++++++++++++-
 .../pass_management/passes/convert_to_cz.py        | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
index 8c5d89c..4fb514d 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
@@ -93,7 +93,16 @@ def convert_to_cx(
         for instr in qc.data:
             op = instr.op
 
-            if op.num_qubits == 2 and op.name not in ("cx", "barrier"):
+            # Controlled gates that act on the |0> control state share their name with
+            # the regular ones. Conjugate their control qubit with X gates.
+            inverted_ctrl = op.name in ("cx", "cy", "cz") and getattr(op, "ctrl_state", "1") == "0"
+
+            if inverted_ctrl:
+                qc_new.x(instr.qubits[0])
+
+            if inverted_ctrl and op.name == "cx":
+                qc_new.cx(instr.qubits[0], instr.qubits[1])
+            elif op.num_qubits == 2 and op.name not in ("cx", "barrier"):
                 if op.name == "cz":
                     qc_new.h(instr.qubits[1])
                     qc_new.cx(instr.qubits[0], instr.qubits[1])
@@ -113,6 +122,9 @@ def convert_to_cx(
             else:
                 qc_new.append(instr)
 
+            if inverted_ctrl:
+                qc_new.x(instr.qubits[0])
+
         return qc_new
 
     return _convert_to_cx
diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
index d209dc8..fde02c3 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
@@ -94,7 +94,16 @@ def convert_to_cz(
         for instr in qc.data:
             op = instr.op
 
-            if op.num_qubits == 2 and op.name not in ("cz", "barrier"):
+            # Controlled gates that act on the |0> control state share their name with
+            # the regular ones. Conjugate their control qubit with X gates.
+            inverted_ctrl = op.name in ("cx", "cy", "cz") and getattr(op, "ctrl_state", "1") == "0"
+
+            if inverted_ctrl:
+                qc_new.x(instr.qubits[0])
+
+            if inverted_ctrl and op.name == "cz":
+                qc_new.cz(instr.qubits[0], instr.qubits[1])
+            elif op.num_qubits == 2 and op.name not in ("cz", "barrier"):
                 if op.name == "cx":
                     qc_new.h(instr.qubits[1])
                     qc_new.cz(instr.qubits[0], instr.qubits[1])
@@ -124,6 +133,9 @@ def convert_to_cz(
             else:
                 qc_new.append(instr)
 
+            if inverted_ctrl:
+                qc_new.x(instr.qubits[0])
+
         return qc_new
 
     return _convert_to_cz
-- 
2.43.0


From deea633b6ee10ebfa941aed10541a6e80f93d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:25 +0000
Subject: [PATCH 013/150] fix: keep classical controls and dropped phases when
 converting to prx gates

---
 .../pass_management/passes/convert_to_prx.py  | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
index e68edfd..ac565f2 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
@@ -117,13 +117,20 @@ def convert_to_prx(qc: QuantumCircuit) -> QuantumCircuit:
             if abs(conversion_op.lam + conversion_op.phi) < 1e-5:
                 prx_0 = PRXGate(conversion_op.theta, conversion_op.phi + np.pi / 2)
 
+                # Append gate if not identity (up to a global phase)
+                keep_gate = abs(conversion_op.theta % (2 * np.pi)) >= 1e-5
+
                 # Track global phase
-                accumulated_phase += _get_phase_diff(U_orig, prx_0.get_unitary())
+                U_prx = prx_0.get_unitary() if keep_gate else np.eye(2)
+                accumulated_phase += _get_phase_diff(U_orig, U_prx)
 
-                # Append gate if not identity
-                if abs(conversion_op.theta % (2 * np.pi)) >= 1e-5:
+                if keep_gate:
                     if isinstance(op, ClControlledOperation):
-                        qc_new.append(prx_0.c_if(op.num_control, op.ctrl_state), qc.data[i].qubits)  # type: ignore[arg-type]
+                        qc_new.append(
+                            prx_0.c_if(op.num_control, op.ctrl_state),  # type: ignore[arg-type]
+                            qc.data[i].qubits,
+                            qc.data[i].clbits,
+                        )
                     else:
                         qc_new.append(prx_0, qc.data[i].qubits)
 
@@ -132,11 +139,17 @@ def convert_to_prx(qc: QuantumCircuit) -> QuantumCircuit:
                 prx_0 = PRXGate(conversion_op.theta + np.pi, -conversion_op.lam + np.pi / 2)
                 prx_1 = PRXGate(np.pi, (conversion_op.phi - conversion_op.lam) / 2 + np.pi / 2)
 
+                # Gates that are the identity (up to a global phase) are dropped
+                keep_0 = abs(prx_0.alpha % (2 * np.pi)) >= 1e-5
+                keep_1 = abs(prx_1.alpha % (2 * np.pi)) >= 1e-5
+
                 # Combined unitary: PRX_1 · PRX_0  (prx_0 applied first in circuit)
-                U_prx = prx_1.get_unitary() @ prx_0.get_unitary()
+                U_prx = (prx_1.get_unitary() if keep_1 else np.eye(2)) @ (
+                    prx_0.get_unitary() if keep_0 else np.eye(2)
+                )
                 accumulated_phase += _get_phase_diff(U_orig, U_prx)
 
-                if not (abs(prx_0.alpha % (2 * np.pi)) < 1e-5):
+                if keep_0:
                     if isinstance(op, ClControlledOperation):
                         qc_new.append(
                             prx_0.c_if(op.num_control, op.ctrl_state),  # type: ignore[arg-type]
@@ -146,7 +159,7 @@ def convert_to_prx(qc: QuantumCircuit) -> QuantumCircuit:
                     else:
                         qc_new.append(prx_0, qc.data[i].qubits)
 
-                if not (abs(prx_1.alpha % (2 * np.pi)) < 1e-5):
+                if keep_1:
                     if isinstance(op, ClControlledOperation):
                         qc_new.append(
                             prx_1.c_if(op.num_control, op.ctrl_state),  # type: ignore[arg-type]
-- 
2.43.0


From 79c980a9118a9fb1a546a2a951e2429c6a01ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:48 +0000
Subject: [PATCH 014/150] fix: respect control states and phase tolerance in
 cancel_zero_controls and fuse_adjacents

---
 .../pass_management/passes/cancel_zero_controls.py   | 12 +++++++++---
 .../circuit/pass_management/passes/fuse_adjacents.py |  9 +++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
index 243223b..d4b979f 100644
--- a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
+++ b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
@@ -34,15 +34,21 @@ def _is_cancelled_by_zero(op: Operation, qubits: list[Qubit], fresh: set[Qubit])
     r"""Return True if *op* on *qubits* is a no-op given a set of \|0⟩ qubits."""
     # Symmetric controlled-phase gates: diag(1,1,1,e^{iφ}).
     # Identity whenever *either* qubit is \|0⟩.
-    if op.name in ("cp", "cz"):
+    if op.name in ("cp", "cz") and "0" not in getattr(op, "ctrl_state", ""):
         return any(qb in fresh for qb in qubits)
 
     # PTControlledOperation wrapping a phase gate on 2 qubits (≡ CP)
-    if isinstance(op, PTControlledOperation) and op.base_operation.name == "p" and op.num_qubits == 2:
+    if (
+        isinstance(op, PTControlledOperation)
+        and op.base_operation.name == "p"
+        and op.num_qubits == 2
+        and op.ctrl_state == "1"
+    ):
         return any(qb in fresh for qb in qubits)
 
     # General controlled operations: cancel when a control-on-\|1⟩ is still \|0⟩.
-    if isinstance(op, (ControlledOperation, PTControlledOperation)):
+    # Phase tolerant operations can apply phases for any state of the controls.
+    if isinstance(op, ControlledOperation):
         n_ctrl = len(op.controls)
         ctrl_state = getattr(op, "ctrl_state", "1" * n_ctrl)
         if isinstance(ctrl_state, int):
diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 876a857..5ee1273 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -118,6 +118,10 @@ def _fuse_swap_with_neighbour(op_a, op_b):
         the neighbour is not a recognised symmetric two-qubit gate.
 
     """
+    # The circuits below assume regular control states.
+    if "0" in getattr(op_a, "ctrl_state", "") or "0" in getattr(op_b, "ctrl_state", ""):
+        return None
+
     with fast_append(0):
         # --- swap-a then something ---
         if "swap" == op_a.name:
@@ -546,8 +550,9 @@ def _resolve_qubit_order(instr_a, instr_b):
         if the qubits cannot be matched.
 
     """
-    a_sym = instr_a.op.name in _SYMMETRIC_GATES
-    b_sym = instr_b.op.name in _SYMMETRIC_GATES
+    # Gates that are controlled on |0> are not symmetric.
+    a_sym = instr_a.op.name in _SYMMETRIC_GATES and "0" not in getattr(instr_a.op, "ctrl_state", "")
+    b_sym = instr_b.op.name in _SYMMETRIC_GATES and "0" not in getattr(instr_b.op, "ctrl_state", "")
 
     if a_sym or b_sym:
         # Symmetric match by set — qubit order difference is tolerated.
-- 
2.43.0


From 22e559b97f0246fd0867248c2219693892dbca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:42 +0000
Subject: [PATCH 015/150] fix: determine permeability of operations that
 contain resets or conditional operations

---
 src/qrisp/permeability/permeability_dag.py |  2 +-
 src/qrisp/permeability/type_checker.py     | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/permeability/permeability_dag.py b/src/qrisp/permeability/permeability_dag.py
index 829b08e..05bd044 100644
--- a/src/qrisp/permeability/permeability_dag.py
+++ b/src/qrisp/permeability/permeability_dag.py
@@ -480,7 +480,7 @@ def dag_from_qc(dag, qc, remove_artificials=False):
         # This treats the case of a deallocation node
         else:
             node = DeallocNode(instr)
-            perm_dic = {0: "neutral"}
+            perm_dic = {j: "neutral" for j in range(len(instr.qubits))}
 
         # We add the index of the corresponding gate to the node object,
         # because this information can be used for stable topological ordering:
diff --git a/src/qrisp/permeability/type_checker.py b/src/qrisp/permeability/type_checker.py
index 31242c3..c9797bc 100644
--- a/src/qrisp/permeability/type_checker.py
+++ b/src/qrisp/permeability/type_checker.py
@@ -84,6 +84,10 @@ def is_permeable(gate, qubit_indices):
 
             return True
 
+    # Operations like measurements or resets don't have a unitary
+    if not has_unitary(gate):
+        return False
+
     for par in gate.params:
         if isinstance(par, sp.Expr):
             return False
@@ -121,6 +125,20 @@ def is_permeable(gate, qubit_indices):
     return result
 
 
+# Tests if a gate contains no operation (such as measurements, resets or classically
+# controlled operations) that can not be described by a unitary
+def has_unitary(gate):
+    from qrisp.circuit import ClControlledOperation
+
+    if gate.name in ["measure", "reset"] or isinstance(gate, ClControlledOperation):
+        return False
+
+    if gate.definition:
+        return all(has_unitary(instr.op) for instr in gate.definition.data)
+
+    return True
+
+
 # Tests if a gate is qfree where qfree is the property that is introduced in SILQ
 # meaning that an operation maps any computational basis state to a computational basis
 # state.
-- 
2.43.0


From eddae0d08897f638ba032d09041cca528773dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:41 +0000
Subject: [PATCH 016/150] fix: do not commute instructions past later uses of
 their classical bits

---
 src/qrisp/circuit/pass_management/passes/commute_swaps.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/commute_swaps.py b/src/qrisp/circuit/pass_management/passes/commute_swaps.py
index a7e470d..36435a3 100644
--- a/src/qrisp/circuit/pass_management/passes/commute_swaps.py
+++ b/src/qrisp/circuit/pass_management/passes/commute_swaps.py
@@ -89,6 +89,14 @@ def commute_swaps(qc: QuantumCircuit) -> QuantumCircuit:
                 partner = instr.qubits[(j + 1) % 2]
                 commutable_indices = last_instruction_dic[qubit]
 
+                # Instructions can not be moved past a later use of their classical bits
+                for k in reversed(range(len(commutable_indices))):
+                    index = commutable_indices[k]
+                    clbits = qc_new.data[index].clbits
+                    if clbits and any(cb in clbits for later in qc_new.data[index + 1 :] for cb in later.clbits):
+                        commutable_indices = commutable_indices[k + 1 :]
+                        break
+
                 if not commutable_indices:
                     continue
 
-- 
2.43.0


From f72e9bbedf7ff8d9ecd323336393c02f368a31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:21 +0000
Subject: [PATCH 017/150] fix: keep phases, conditions and parameters of
 circuits exchanged with Qiskit

---
 .../interface/converter/qiskit_converter.py   | 242 +++++++++++++-----
 1 file changed, 171 insertions(+), 71 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index 29e38ec..dcafcbf 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -24,7 +24,7 @@ from qrisp.misc import bin_rep
 
 
 # Function to convert qrisp quantum circuits to Qiskit quantum circuits
-def convert_to_qiskit(qc, transpile=False):
+def convert_to_qiskit(qc, transpile=False, symbol_param_dic=None):
     from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
     from qiskit.circuit import Parameter
 
@@ -52,7 +52,10 @@ def convert_to_qiskit(qc, transpile=False):
 
         bit_dic[qc.clbits[i].identifier] = qiskit_qc.clbits[-1]
 
-    symbol_param_dic = {}
+    # Shared with the conversion of nested definitions, since Qiskit requires
+    # parameters with the same name to be identical objects
+    if symbol_param_dic is None:
+        symbol_param_dic = {}
 
     for i in range(len(qc.data)):
         op = qc.data[i].op
@@ -94,7 +97,7 @@ def convert_to_qiskit(qc, transpile=False):
 
         elif op.name == "gphase":
             temp_qc = QuantumCircuit(1)
-            temp_qc.global_phase += float(params[0])
+            temp_qc.global_phase += params[0]
             qiskit_ins = temp_qc.to_gate()
             qiskit_ins.name = "gphase"
 
@@ -105,15 +108,25 @@ def convert_to_qiskit(qc, transpile=False):
             try:
                 from qiskit.circuit import IfElseOp
 
-                qregs = [qiskit_qc.qregs[qc.qubits.index(qb)] for qb in qc.data[i].qubits]
-                body_qc = QuantumCircuit(*qregs)
-                if op.base_op.definition:
-                    body_qc = body_qc.compose(op.base_op.definition.to_qiskit())
-                else:
-                    base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
-                    body_qc.append(base_qiskit_ins, qubit_list)
-                qiskit_ins = IfElseOp((clbit_list[0], 1), true_body=body_qc)
-                clbit_list = []
+                ctrl_bits = clbit_list[: op.num_control]
+                base_bits = clbit_list[op.num_control :]
+
+                from qrisp.circuit import QuantumCircuit as QrispQuantumCircuit
+
+                base_qc = QrispQuantumCircuit(op.base_op.num_qubits, op.base_op.num_clbits)
+                base_qc.append(op.base_op, base_qc.qubits, base_qc.clbits)
+
+                # The body is conditioned on every classical control bit (in its respective
+                # control state) by nesting one IfElseOp per control bit.
+                body_qc = QuantumCircuit(qubit_list, base_bits)
+                body_qc.compose(convert_to_qiskit(base_qc, symbol_param_dic=symbol_param_dic), qubit_list, base_bits, inplace=True)
+                clbit_list = base_bits
+                for j in range(op.num_control)[::-1]:
+                    qiskit_ins = IfElseOp((ctrl_bits[j], int(op.ctrl_state[j])), true_body=body_qc)
+                    if j > 0:
+                        body_qc = QuantumCircuit(qubit_list, clbit_list + ctrl_bits[j : j + 1])
+                        body_qc.append(qiskit_ins, qubit_list, clbit_list)
+                        clbit_list = list(body_qc.clbits)
             except ImportError:
                 base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
                 cl_reg = ClassicalRegister(op.num_clbits)
@@ -129,21 +142,17 @@ def convert_to_qiskit(qc, transpile=False):
             if len(base_name) == 1:
                 base_name = base_name.upper()
 
-            if op.base_operation.definition:
-                qiskit_definition = convert_to_qiskit(op.base_operation.definition)
-                base_gate = qiskit_definition.to_gate()
-                base_gate.name = op.base_operation.name
-                qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
-
-            elif op.base_operation.name == "gphase":
-                qiskit_ins = create_qiskit_instruction(op, params)
+            if op.base_operation.name == "gphase":
+                qiskit_ins = create_qiskit_instruction(op, params, symbol_param_dic)
             elif op.num_qubits == op.base_operation.num_qubits:
-                qiskit_ins = create_qiskit_instruction(op.base_operation, params)
+                qiskit_ins = create_qiskit_instruction(op.base_operation, params, symbol_param_dic)
             else:
-                base_gate = create_qiskit_instruction(op.base_operation, params)
+                base_gate = create_qiskit_base_gate(op.base_operation, params, symbol_param_dic)
                 qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
         else:
-            qiskit_ins = create_qiskit_instruction(op, params)
+            qiskit_ins = create_qiskit_instruction(op, params, symbol_param_dic)
+            if op.name in sx_phase:
+                qiskit_qc.global_phase -= sx_phase[op.name]
 
         # Append to qiskit circuit
         qiskit_qc.append(qiskit_ins, qubit_list, clbit_list)
@@ -151,7 +160,20 @@ def convert_to_qiskit(qc, transpile=False):
     return qiskit_qc
 
 
-def create_qiskit_instruction(op, params=[]):
+# Qiskit's SX gates differ from Qrisp's (which are x-rotations) by these global phases
+sx_phase = {"sx": np.pi / 4, "sx_dg": -np.pi / 4}
+
+
+# Gates that are to be controlled need to agree with Qrisp including the global phase
+def create_qiskit_base_gate(op, params=[], symbol_param_dic=None):
+    import qiskit.circuit.library.standard_gates as qsk_gates
+
+    if op.name in sx_phase:
+        return qsk_gates.RXGate(2 * sx_phase[op.name])
+    return create_qiskit_instruction(op, params, symbol_param_dic)
+
+
+def create_qiskit_instruction(op, params=[], symbol_param_dic=None):
     import qiskit.circuit.library.standard_gates as qsk_gates
     from qiskit import QiskitError
     from qiskit.circuit import Barrier, Measure, Reset
@@ -180,15 +202,8 @@ def create_qiskit_instruction(op, params=[]):
         if len(base_name) == 1:
             base_name = base_name.upper()
 
-        if op.base_operation.definition:
-            qiskit_definition = convert_to_qiskit(op.base_operation.definition)
-            base_gate = qiskit_definition.to_gate()
-            base_gate.name = op.base_operation.name
-            qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
-
-        else:
-            base_gate = create_qiskit_instruction(op.base_operation, params)
-            qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
+        base_gate = create_qiskit_base_gate(op.base_operation, params, symbol_param_dic)
+        qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
     elif op.name == "rxx":
         qiskit_ins = qsk_gates.RXXGate(*params)
     elif op.name == "rzz":
@@ -223,7 +238,8 @@ def create_qiskit_instruction(op, params=[]):
     elif op.name == "p":
         qiskit_ins = qsk_gates.PhaseGate(params[0])
     elif op.name == "u1":
-        qiskit_ins = qsk_gates.PhaseGate(params[0])
+        # Qrisp's u1 is a z-rotation (including the global phase)
+        qiskit_ins = qsk_gates.RZGate(params[0])
     elif op.name == "s":
         qiskit_ins = qsk_gates.SGate()
     elif op.name == "s_dg":
@@ -252,7 +268,7 @@ def create_qiskit_instruction(op, params=[]):
     elif op.name == "reset":
         qiskit_ins = Reset()
     elif op.definition:
-        qiskit_definition = convert_to_qiskit(op.definition)
+        qiskit_definition = convert_to_qiskit(op.definition, symbol_param_dic=symbol_param_dic)
         try:
             qiskit_ins = qiskit_definition.to_gate()
         except QiskitError:
@@ -267,11 +283,28 @@ def create_qiskit_instruction(op, params=[]):
 
 op_dic = {op().name: op for op in op_list}
 op_dic["u"] = op_dic["u3"]
+# Qiskit's u1 is a phase gate
+op_dic["u1"] = op_dic["p"]
+op_dic["sxdg"] = op_dic["sx_dg"]
+
+
+def convert_parameter(p):
+    from qiskit.circuit import ParameterExpression
+    from sympy import sympify
+
+    if isinstance(p, np.number):
+        return p.item()
+    elif isinstance(p, ParameterExpression):
+        return sympify(p.sympify())
+    elif isinstance(p, (float, int)):
+        return float(p)
+    elif isinstance(p, complex):
+        return p
+    raise Exception(f"Could not convert parameter type {type(p)}")
 
 
 def convert_from_qiskit(qiskit_qc):
-    from qiskit import QuantumCircuit as QiskitQuantumCircuit
-    from qiskit.circuit import ControlledGate, ParameterExpression
+    from qiskit.circuit import ControlFlowOp, ControlledGate, Gate, Instruction
 
     from qrisp import Barrier, Clbit, ControlledOperation, QuantumCircuit, Qubit
 
@@ -297,6 +330,10 @@ def convert_from_qiskit(qiskit_qc):
     for i in range(qiskit_qc.num_clbits):
         cl_reg = qiskit_qc.clbits[i]._register
 
+        if cl_reg is None:
+            qc.add_clbit()
+            continue
+
         clbit_name = cl_reg.name
         if cl_reg.size > 1:
             # Case distinctionction for Qiskit version compatibility.
@@ -310,21 +347,44 @@ def convert_from_qiskit(qiskit_qc):
     qb_dic = {qiskit_qc.qubits[i]: qc.qubits[i] for i in range(qiskit_qc.num_qubits)}
     cb_dic = {qiskit_qc.clbits[i]: qc.clbits[i] for i in range(qiskit_qc.num_clbits)}
 
-    from sympy import sympify
+    global_phase = getattr(qiskit_qc, "global_phase", 0)
 
     for i in range(len(qiskit_qc.data)):
         qiskit_op = qiskit_qc.data[i].operation
 
-        if hasattr(qiskit_op, "condition_bits"):
+        qubits = [qb_dic[qb] for qb in qiskit_qc.data[i].qubits]
+        clbits = [cb_dic[cb] for cb in qiskit_qc.data[i].clbits]
+
+        if qiskit_op.name == "if_else":
+            for op, cond_bits, inner_clbits in convert_if_else(qiskit_op, cb_dic, clbits):
+                qc.append(op, qubits, cond_bits + inner_clbits)
+            continue
+
+        if getattr(qiskit_op, "condition_bits", None):
             condition_bits = [cb_dic[cb] for cb in qiskit_op.condition_bits]
-            if condition_bits:
-                condition_value = qiskit_op.condition[1]
-        elif hasattr(qiskit_op, "is_control_flow") and qiskit_op.is_control_flow():
-            condition_bits = [cb_dic[cb] for cb in qiskit_qc.data[i].clbits]
             condition_value = qiskit_op.condition[1]
+        elif isinstance(qiskit_op, ControlFlowOp):
+            raise Exception("Could not convert Qiskit operation " + str(qiskit_op.name) + " to Qrisp")
         else:
             condition_bits = []
 
+        if qiskit_op.name == "global_phase":
+            global_phase += qiskit_op.params[0]
+            continue
+
+        if isinstance(qiskit_op, ControlledGate):
+            controlled_gate = True
+            if qiskit_op.name.startswith("cu") and len(qiskit_op.params) == 4:
+                # The base gate of the CUGate does not contain its relative phase parameter
+                controlled_gate = False
+                definition = qiskit_op.definition
+                qiskit_op = definition.to_gate()
+                qiskit_op.name = "cu"
+            else:
+                qiskit_op = qiskit_op.base_gate
+        else:
+            controlled_gate = False
+
         params = list(qiskit_op.params)
 
         qrisp_params = []
@@ -333,37 +393,33 @@ def convert_from_qiskit(qiskit_qc):
             p = params.pop(0)
             if isinstance(p, np.ndarray):
                 params = list(p.flatten()) + params
-            elif isinstance(p, np.number):
-                qrisp_params.append(p.item())
-            elif isinstance(p, ParameterExpression):
-                lambd_expr = sympify(ParameterExpression.sympify(p))
-
-                qrisp_params.append(lambd_expr)
-
-            elif isinstance(p, (float, int)):
-                qrisp_params.append(float(p))
-            elif isinstance(p, complex):
-                qrisp_params.append(p)
-            elif isinstance(p, QiskitQuantumCircuit):
-                qiskit_op = p.to_gate()
-                break
             else:
-                print(p)
-                raise Exception(f"Could not convert parameter type {type(p)}")
+                qrisp_params.append(convert_parameter(p))
 
         params = qrisp_params
 
-        if isinstance(qiskit_op, ControlledGate):
-            controlled_gate = True
-            qiskit_op = qiskit_op.base_gate
-        else:
-            controlled_gate = False
+        # Custom gates are not described by their name, even if it coincides with the name of a known gate
+        is_custom = type(qiskit_op) in [Gate, Instruction]
 
+        if is_custom and qiskit_op.name == "gphase":
+            op = op_dic["gphase"](convert_parameter(qiskit_op.definition.global_phase))
+        elif is_custom and qiskit_op.definition is not None:
+            name = qiskit_op.name
+            if name.lower() in op_dic:
+                name = "qiskit_" + name
+            op = convert_from_qiskit(qiskit_op.definition).to_gate(name=name)
         # Qiskit RGate → PRXGate
-        if qiskit_op.name == "r":
+        elif qiskit_op.name == "r":
             from qrisp.circuit import PRXGate as _PRXGate
 
             op = _PRXGate(params[0], params[1])
+        elif controlled_gate and qiskit_op.name in ["sx", "sxdg"]:
+            # The global phase of the base gate matters if it is controlled
+            phase = np.pi / 4 if qiskit_op.name == "sx" else -np.pi / 4
+            base_qc = QuantumCircuit(1)
+            base_qc.rx(2 * phase, 0)
+            base_qc.gphase(phase, 0)
+            op = base_qc.to_gate(name="qiskit_" + qiskit_op.name)
         else:
             try:
                 op = op_dic[qiskit_op.name](*params)
@@ -387,19 +443,63 @@ def convert_from_qiskit(qiskit_qc):
         if op.name == "barrier":
             op = Barrier(qiskit_op.num_qubits)
 
-        qubits = [qb_dic[qb] for qb in qiskit_qc.data[i].qubits]
-        clbits = [cb_dic[cb] for cb in qiskit_qc.data[i].clbits]
-
         if condition_bits:
-            clbits += condition_bits
+            clbits = condition_bits + clbits
             op = op.c_if(len(condition_bits), condition_value)
+        elif not controlled_gate and qiskit_op.name in ["sx", "sxdg"]:
+            global_phase += np.pi / 4 if qiskit_op.name == "sx" else -np.pi / 4
 
         qc.append(op, qubits, clbits)
 
     # Propagate Qiskit's global phase (stored as a circuit attribute,
     # not an instruction).  Dropping it changes the unitary — critical
     # for controlled operations built from gate definitions with phase.
-    if abs(getattr(qiskit_qc, "global_phase", 0)) > 1e-10:
-        qc.gphase(qiskit_qc.global_phase, qc.qubits[0])
+    global_phase = convert_parameter(global_phase)
+    if isinstance(global_phase, float):
+        global_phase = (global_phase + np.pi) % (2 * np.pi) - np.pi
+    if not isinstance(global_phase, float) or abs(global_phase) > 1e-10:
+        qc.gphase(global_phase, qc.qubits[0])
 
     return qc
+
+
+# Returns a list of tuples (operation, condition bits, further clbits) that is equivalent
+# to the given IfElseOp
+def convert_if_else(if_else_op, cb_dic, clbits):
+    from qiskit.circuit import Clbit as QiskitClbit
+    from qiskit.circuit import ClassicalRegister, IfElseOp
+
+    target, value = if_else_op.condition
+    if isinstance(target, QiskitClbit):
+        condition_bits = [cb_dic[target]]
+        condition_value = str(int(value))
+    elif isinstance(target, ClassicalRegister):
+        condition_bits = [cb_dic[cb] for cb in target]
+        condition_value = bin_rep(int(value), target.size)[::-1]
+    else:
+        raise Exception("Could not convert Qiskit condition " + str(if_else_op.condition) + " to Qrisp")
+
+    branches = [(if_else_op.blocks[0], condition_value)]
+    if len(if_else_op.blocks) == 2 and if_else_op.blocks[1] is not None:
+        if len(condition_bits) != 1:
+            raise Exception("Could not convert else branch with a condition on several classical bits to Qrisp")
+        branches.append((if_else_op.blocks[1], str(1 - int(condition_value))))
+
+    res = []
+    for body, ctrl_state in branches:
+        # Nested conditions that do not contain anything else are conditions on more classical bits
+        inner_cb_dic = {cb: clbits[j] for j, cb in enumerate(body.clbits)}
+        if len(body.data) == 1 and isinstance(body.data[0].operation, IfElseOp):
+            instr = body.data[0]
+            if list(instr.qubits) == list(body.qubits):
+                inner_clbits = [inner_cb_dic[cb] for cb in instr.clbits]
+                for op, cond_bits, further_clbits in convert_if_else(instr.operation, {**cb_dic, **inner_cb_dic}, inner_clbits):
+                    op = op.base_op.c_if(len(condition_bits + cond_bits), ctrl_state + op.ctrl_state)
+                    res.append((op, condition_bits + cond_bits, further_clbits))
+                continue
+
+        body_qc = convert_from_qiskit(body)
+        if any(len(instr.clbits) for instr in body_qc.data):
+            raise Exception("Could not convert Qiskit condition on non-unitary operations to Qrisp")
+        res.append((body_qc.to_gate().c_if(len(condition_bits), ctrl_state), condition_bits, []))
+    return res
-- 
2.43.0


From 5e5533d91215b570883fe3805f830ed52c1fbbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:29 +0000
Subject: [PATCH 018/150] fix: keep phases, control states and angles of
 circuits exported to PyTket

---
 .../interface/converter/pytket_converter.py   | 33 +++++--------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/src/qrisp/interface/converter/pytket_converter.py b/src/qrisp/interface/converter/pytket_converter.py
index d8986c6..d4835fc 100644
--- a/src/qrisp/interface/converter/pytket_converter.py
+++ b/src/qrisp/interface/converter/pytket_converter.py
@@ -37,7 +37,7 @@ def create_tket_instruction(op):
     elif op.name == "h":
         tket_ins = OpType.H
     elif op.name == "p":
-        tket_ins = OpType.Rz
+        tket_ins = OpType.U1
     elif op.name == "x":
         tket_ins = OpType.X
     elif op.name == "y":
@@ -139,30 +139,17 @@ def pytket_converter(qc, boxFlag=False):
         if op.name in ["qb_alloc", "qb_dealloc"]:
             continue
 
-        elif op.name == "cx":
-            # maybe adjustment necessary here
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CX
-            else:
-                tket_ins = OpType.CX
+        elif op.name == "cx" and set(getattr(op, "ctrl_state", "1")) == {"1"}:
+            tket_ins = OpType.CX
 
-        elif op.name == "cy":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CY
-            else:
-                tket_ins = OpType.CY
+        elif op.name == "cy" and set(getattr(op, "ctrl_state", "1")) == {"1"}:
+            tket_ins = OpType.CY
 
-        elif op.name == "cz":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CZ
-            else:
-                tket_ins = OpType.CZ
+        elif op.name == "cz" and set(getattr(op, "ctrl_state", "1")) == {"1"}:
+            tket_ins = OpType.CZ
 
-        elif op.name == "cp":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CRz
-            else:
-                tket_ins = OpType.Rz
+        elif op.name == "cp" and set(getattr(op, "ctrl_state", "1")) == {"1"}:
+            tket_ins = OpType.CU1
 
         elif op.name == "sx":
             # bugged -> params empty
@@ -174,8 +161,6 @@ def pytket_converter(qc, boxFlag=False):
             tket_ins = OpType.SXdg
 
         elif op.name == "u1":
-            params[0] = params[0] / np.pi
-            # bugged
             tket_ins = OpType.Rz
         elif op.name == "id":
             params = []
-- 
2.43.0


From dec15b4a1a229ff1422b81d59f3fa26dbf045596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:02 +0000
Subject: [PATCH 019/150] fix: keep the phase of controlled gates imported from
 Cirq

---
 src/qrisp/interface/converter/cirq_converter.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/qrisp/interface/converter/cirq_converter.py b/src/qrisp/interface/converter/cirq_converter.py
index 9ede12b..4bb44b1 100644
--- a/src/qrisp/interface/converter/cirq_converter.py
+++ b/src/qrisp/interface/converter/cirq_converter.py
@@ -313,6 +313,8 @@ def convert_from_cirq(cirq_circuit):
         # argument, so map it to the first available qubit.  Handled
         # outside the dict because of this special qubit-mapping logic.
         if isinstance(gate, cirq.GlobalPhaseGate):
+            if extra_controls is not None:
+                raise ValueError(f"Controlled global phase {op} is not supported by the Cirq to Qrisp converter.")
             phi = np.angle(gate.coefficient)
             if cirq_qubits:
                 qc.append(ops.GPhaseGate(phi), [qubit_map[cirq_qubits[0]]])
@@ -410,6 +412,16 @@ def convert_from_cirq(cirq_circuit):
         else:
             raise ValueError(f"Gate {gate} is not supported by the Cirq to Qrisp converter.")
 
+        # The global phase of the innermost gate (eg. from the exponent or the
+        # global shift) becomes observable as soon as the gate is controlled.
+        if (ctrl_layers or extra_controls is not None) and qrisp_op.name != "reset":
+            phase = np.angle(np.vdot(qrisp_op.get_unitary(), cirq.unitary(inner_gate)))
+            if abs(phase) > 1e-5:
+                base_qc = QuantumCircuit(qrisp_op.num_qubits)
+                base_qc.append(qrisp_op, base_qc.qubits)
+                base_qc.gphase(phase, base_qc.qubits[0])
+                qrisp_op = base_qc.to_gate()
+
         # Wrap any ControlledGate layers (inside-out)
         for num_ctrl, ctrl_state in reversed(ctrl_layers):
             qrisp_op = ControlledOperation(
-- 
2.43.0


From 2050fba5d3a5a439568b55d4282307a19b504b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:04 +0000
Subject: [PATCH 020/150] fix: restore the loop bound after iterating over a
 quantum range

---
 src/qrisp/misc/qrange.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/misc/qrange.py b/src/qrisp/misc/qrange.py
index 9f5d393..6884c1b 100644
--- a/src/qrisp/misc/qrange.py
+++ b/src/qrisp/misc/qrange.py
@@ -70,7 +70,7 @@ class qRange:
             if self.c_index >= 2 ** (self.index_qf.size - 1):
                 if self.create_index_qf:
                     x(self.index_qf)
-                    self.index_qf += self.c_index - 1
+                    self.index_qf += self.c_index
 
                     if not self.max_index_qf.signed:
                         cx(self.max_index_qf, self.index_qf[:-1])
@@ -79,9 +79,10 @@ class qRange:
                     self.index_qf.delete()
                 else:
                     x(self.index_qf)
-                    self.index_qf += self.c_index - 1
+                    self.index_qf += self.c_index
 
-                    self.index_qf.reduce(self.index_qf[-1])
+                    if not self.index_qf.signed:
+                        self.index_qf.reduce(self.index_qf[-1])
 
                 perm_unlock(self.index_qf)
                 raise StopIteration
-- 
2.43.0


From 104d4d06451ff73f4abbe8840d7b0f65868385e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:21 +0000
Subject: [PATCH 021/150] fix: respect the control state of the parent when
 evaluating a nested condition

---
 .../environments/quantum_conditionals.py      | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/environments/quantum_conditionals.py b/src/qrisp/environments/quantum_conditionals.py
index fd309b7..5172197 100644
--- a/src/qrisp/environments/quantum_conditionals.py
+++ b/src/qrisp/environments/quantum_conditionals.py
@@ -407,7 +407,23 @@ class ConditionEnvironment(QuantumEnvironment):
 
                 from qrisp import mcx
 
-                mcx(toffoli_qb_list, self.condition_truth_value, method="gray_pt")
+                # The truth value of a parent control environment can be negated
+                parent_ctrl_state = "1"
+
+                if isinstance(self.parent_cond_env, ControlEnvironment):
+                    if len(self.parent_cond_env.ctrl_qubits) == 1:
+                        if self.parent_cond_env.ctrl_state == "0" and not hasattr(self.parent_cond_env, "qbool"):
+                            parent_ctrl_state = "0"
+
+                    if self.parent_cond_env.invert:
+                        parent_ctrl_state = "0" if parent_ctrl_state == "1" else "1"
+
+                mcx(
+                    toffoli_qb_list,
+                    self.condition_truth_value,
+                    method="gray_pt",
+                    ctrl_state=parent_ctrl_state + "1",
+                )
 
             else:
                 # Without any parent environment we can simply synhesize the
@@ -516,7 +532,12 @@ class ConditionEnvironment(QuantumEnvironment):
             # this environments truth value
             if self.parent_cond_env is not None:
                 self.parent_cond_env.sub_condition_envs.extend(self.sub_condition_envs + [self])
-                mcx(toffoli_qb_list, self.qbool, method="gray_pt_inv")
+                mcx(
+                    toffoli_qb_list,
+                    self.qbool,
+                    method="gray_pt_inv",
+                    ctrl_state=parent_ctrl_state + "1",
+                )
                 self.qbool.delete()
 
             # We now uncompute the environments' truth value
-- 
2.43.0


From a80b84adfc7c1af87ebedf325e2548be2858e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:21 +0000
Subject: [PATCH 022/150] fix: evaluate inverted and overlapping conditions of
 nested control environments correctly

---
 src/qrisp/environments/control_environment.py | 81 ++++++++++++-------
 1 file changed, 53 insertions(+), 28 deletions(-)

diff --git a/src/qrisp/environments/control_environment.py b/src/qrisp/environments/control_environment.py
index d75dd67..de72730 100644
--- a/src/qrisp/environments/control_environment.py
+++ b/src/qrisp/environments/control_environment.py
@@ -168,6 +168,12 @@ class ControlEnvironment(QuantumEnvironment):
             ctrl_qubits = list(self.ctrl_qubits)
             cond_compile_ctrl_state = self.ctrl_state
 
+            # This qubit needs to be XORed into the truth value if the environment is
+            # inverted and embedded in another condition
+            inversion_ctrl = None
+            # Is set to False if the condition contradicts the condition of the parent
+            satisfiable = True
+
             if self.parent_cond_env is not None:
                 # In the parent case we also need to make sure that the code is executed
                 # if the parent environment is executed. A possible approach would be
@@ -193,7 +199,7 @@ class ControlEnvironment(QuantumEnvironment):
 
                     self.condition_truth_value = self.qbool[0]
 
-                ctrl_qubits.append(self.parent_cond_env.condition_truth_value)
+                parent_truth_value = self.parent_cond_env.condition_truth_value
 
                 parent_ctrl_state = "1"
 
@@ -208,20 +214,40 @@ class ControlEnvironment(QuantumEnvironment):
                         elif parent_ctrl_state == "1":
                             parent_ctrl_state = "0"
 
-                cond_compile_ctrl_state = cond_compile_ctrl_state + parent_ctrl_state
-
-            if len(ctrl_qubits) > 1:
-                if len(ctrl_qubits) > 5:
-                    method = "auto"
+                if parent_truth_value in ctrl_qubits:
+                    # The parent is controlled on one of the qubits of this environment
+                    satisfiable = cond_compile_ctrl_state[ctrl_qubits.index(parent_truth_value)] == parent_ctrl_state
                 else:
-                    method = "gray_pt"
+                    ctrl_qubits.append(parent_truth_value)
+                    cond_compile_ctrl_state = cond_compile_ctrl_state + parent_ctrl_state
 
-                mcx(
-                    ctrl_qubits,
-                    self.condition_truth_value,
-                    ctrl_state=cond_compile_ctrl_state,
-                    method=method,
-                )
+                if self.invert:
+                    # Only the condition of this environment is inverted
+                    # but not the condition of the parent
+                    inversion_ctrl = parent_truth_value
+                    self.invert = False
+
+            if len(ctrl_qubits) > 5:
+                method = "auto"
+                uncompute_method = "auto"
+            elif len(ctrl_qubits) > 1:
+                method = "gray_pt"
+                uncompute_method = "gray_pt_inv"
+            else:
+                method = "gray"
+                uncompute_method = "gray"
+
+            if hasattr(self, "qbool"):
+                if satisfiable:
+                    mcx(
+                        ctrl_qubits,
+                        self.condition_truth_value,
+                        ctrl_state=cond_compile_ctrl_state,
+                        method=method,
+                    )
+
+                if inversion_ctrl is not None:
+                    mcx([inversion_ctrl], self.condition_truth_value, ctrl_state=parent_ctrl_state)
 
             perm_lock(ctrl_qubits)
             # unlock(self.condition_truth_value)
@@ -300,10 +326,10 @@ class ControlEnvironment(QuantumEnvironment):
                         )
                     continue
 
-                if len(ctrl_qubits) == 1:
-                    ctrl_state = self.ctrl_state
-                else:
+                if hasattr(self, "qbool"):
                     ctrl_state = "1"
+                else:
+                    ctrl_state = self.ctrl_state
 
                 if self.invert:
                     new_ctrl_state = ""
@@ -343,18 +369,17 @@ class ControlEnvironment(QuantumEnvironment):
             if inversion_tracker == -1:
                 x(self.condition_truth_value)
 
-            if len(ctrl_qubits) > 1:
-                if len(ctrl_qubits) > 5:
-                    method = "auto"
-                else:
-                    method = "gray_pt_inv"
-
-                mcx(
-                    ctrl_qubits,
-                    self.qbool,
-                    method=method,
-                    ctrl_state=cond_compile_ctrl_state,
-                )
+            if hasattr(self, "qbool"):
+                if inversion_ctrl is not None:
+                    mcx([inversion_ctrl], self.condition_truth_value, ctrl_state=parent_ctrl_state)
+
+                if satisfiable:
+                    mcx(
+                        ctrl_qubits,
+                        self.qbool,
+                        method=uncompute_method,
+                        ctrl_state=cond_compile_ctrl_state,
+                    )
                 self.qbool.delete()
 
         if self.parent_cond_env is not None:
-- 
2.43.0


From 91b300c26ad37e1ebcaf832fdcd6b4cbfc6e247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:21 +0000
Subject: [PATCH 023/150] fix: do not execute gate wrapped functions twice if
 their arguments live in different sessions

---
 src/qrisp/misc/utility.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 32bd0bf..8c2e3db 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -458,6 +458,9 @@ def gate_wrap_inner(function, permeability=None, is_qfree=None, name=None, verif
         with gwe:
             result = function(*args, **kwargs)
 
+        # The function might not have acted on the session found in the arguments
+        qs = gwe.env_qs
+
         if len(qs.env_stack):
             gwe.compile()
 
-- 
2.43.0


From 01f0f69f0105a98cc73dc7815b81abd3a526ec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:22 +0000
Subject: [PATCH 024/150] fix: pass the combined truth value to custom
 controlled functions in nested environments

---
 src/qrisp/misc/utility.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 8c2e3db..094fc3d 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1348,15 +1348,33 @@ def find_calling_line(level=0):
     return str(traceback.format_list(stack)[1].split("\n")[1].strip())  # prints "a = fct1()"
 
 
-def retarget_instructions(data, source_qubits, target_qubits):
+def retarget_instructions(data, source_qubits, target_qubits, retarget_controls=False):
     from qrisp import QuantumEnvironment
+    from qrisp.environments import ControlEnvironment
+    from qrisp.environments.custom_control_environment import CustomControlEnvironment
+
+    def retarget(qb):
+        return target_qubits[source_qubits.index(qb)] if qb in source_qubits else qb
 
     for i in range(len(data)):
         instr = data[i]
 
         if isinstance(instr, QuantumEnvironment):
-            retarget_instructions(instr.original_data, source_qubits, target_qubits)
-            retarget_instructions(instr.env_data, source_qubits, target_qubits)
+            # The control qubit of a custom controlled function is the truth value of the
+            # surrounding environment. Therefore the control environments within this
+            # function need to be retargeted too.
+            env_retarget_controls = retarget_controls
+
+            if isinstance(instr, CustomControlEnvironment):
+                instr.control_qb = retarget(instr.control_qb)
+                env_retarget_controls = True
+
+            if retarget_controls and isinstance(instr, ControlEnvironment):
+                instr.ctrl_qubits = [retarget(qb) for qb in instr.ctrl_qubits]
+                instr.condition_truth_value = retarget(instr.condition_truth_value)
+
+            retarget_instructions(instr.original_data, source_qubits, target_qubits, env_retarget_controls)
+            retarget_instructions(instr.env_data, source_qubits, target_qubits, env_retarget_controls)
             continue
 
         for j in range(len(instr.qubits)):
-- 
2.43.0


From 4a02d97ab487622867849e1887f72bda996d59ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:48 +0000
Subject: [PATCH 025/150] fix: keep phases right in the controlled
 quantum-quantum Gidney addition

---
 .../arithmetic/adders/gidney_adder.py         | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
index bcdefe7..aeff549 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
@@ -125,6 +125,29 @@ def _apply_x_bit(target, ctrl=None):
         x(target)
 
 
+def _apply_controlled_cx(ctrl, source, target):
+    """Apply a CNOT from ``source`` to ``target``, controlled by ``ctrl``.
+
+    The Gidney AND requires a target in state |0>. For an arbitrary ``target``
+    it is therefore computed into a temporary ancilla.
+
+    Parameters
+    ----------
+    ctrl : Qubit
+        The outer control qubit.
+    source : Qubit
+        The control qubit of the CNOT.
+    target : Qubit
+        The qubit to flip.
+
+    """
+    and_anc = QuantumBool(name="gidney_and_anc*")
+    mcx([ctrl, source], and_anc[0], method="gidney")
+    cx(and_anc[0], target)
+    mcx([ctrl, source], and_anc[0], method="gidney_inv")
+    and_anc.delete()
+
+
 def _apply_classical_carry_chain(gidney_anc, b_qbs, n, a_int, ctrl):
     """Apply carry-chain phases for classical input values.
 
@@ -267,9 +290,9 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
     # MSB carry-out and sum.
     # The carry from position n-2 toggles b_qbs[n-1].
     if ctrl is not None:
-        mcx([ctrl, gidney_anc[n - 2]], b_qbs[n - 1], method="gidney")
+        _apply_controlled_cx(ctrl, gidney_anc[n - 2], b_qbs[n - 1])
         if c_out_qb is None:
-            mcx([ctrl, a_qbs[n - 1]], b_qbs[n - 1], method="gidney")
+            _apply_controlled_cx(ctrl, a_qbs[n - 1], b_qbs[n - 1])
     # When c_out_qb is None:  b_qbs[n-1] is b's MSB
     #   — both the carry and a_qbs[n-1] contribute (full b += a).
     # When c_out_qb is not None:  c_out_qb was appended to b_qbs,
@@ -290,7 +313,7 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
         if ctrl is not None:
             # ctrl is already in the qubit list, so CustomControlEnvironment
             # takes the targeting_control=True path (no double-add).
-            mcx([ctrl, a_qbs[i]], b_qbs[i], method="gidney")
+            _apply_controlled_cx(ctrl, a_qbs[i], b_qbs[i])
             cx(gidney_anc[i - 1], a_qbs[i])
             cx(gidney_anc[i - 1], b_qbs[i])
         else:
@@ -484,7 +507,7 @@ def gidney_adder(
     if c_in_qb is not None:
         with control(n <= 1):
             if ctrl is not None:
-                mcx([ctrl, c_in_qb], b_qbs[0], method="gidney")
+                _apply_controlled_cx(ctrl, c_in_qb, b_qbs[0])
             else:
                 cx(c_in_qb, b_qbs[0])
 
@@ -498,7 +521,7 @@ def gidney_adder(
     # The carry chain handles positions 1 .. n-1; the least-significant
     # bit is the only remaining XOR not yet performed.
     if ctrl is not None:
-        mcx([ctrl, a_qbs[0]], b_qbs[0], method="gidney")
+        _apply_controlled_cx(ctrl, a_qbs[0], b_qbs[0])
     else:
         cx(a_qbs[0], b_qbs[0])
 
-- 
2.43.0


From ff32857f3656b269a61f4a1158a6e8d6b90dd652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:48 +0000
Subject: [PATCH 026/150] fix: write the carry-out of the Cuccaro adder only if
 the control is on

---
 src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
index dade943..a3710a4 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
@@ -152,7 +152,10 @@ def cuccaro_adder(
 
     # cnot
     if c_out is not None:
-        cx(a[-1], ancilla2)
+        if ctrl is None:
+            cx(a[-1], ancilla2)
+        else:
+            mcx([ctrl, a[-1]], ancilla2)
 
     if ctrl is None:
         # iterator uma gate application
-- 
2.43.0


From e83feca8d8d57db2db22388e042de31f181f7727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:48 +0000
Subject: [PATCH 027/150] fix: in-place addition of registers with fewer than
 two bits

---
 .../alg_primitives/arithmetic/adders/thapliyal_adder.py    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py
index fd465c2..9e4ebfd 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py
@@ -46,12 +46,17 @@ def thapliyal_procedure(qc, qubit_list_1, qubit_list_2, output_qubit):
 
     n = len(qubit_list_1)
 
+    # Without any qubits to add, there is no carry
+    if n == 0:
+        return
+
     # Step 1
     for i in range(1, n):
         qc.cx(qubit_list_1[i], qubit_list_2[i])
 
     # Step 2
-    qc.cx(qubit_list_1[-1], output_qubit)
+    if n > 1:
+        qc.cx(qubit_list_1[-1], output_qubit)
 
     for i in range(n - 2, 0, -1):
         qc.cx(qubit_list_1[i], qubit_list_1[i + 1])
-- 
2.43.0


From 301edef875d4b1cd818f68c2bcf2016b6dc4ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:48 +0000
Subject: [PATCH 028/150] fix: carry look-ahead addition without T-depth
 reduction for radix one and unequal sizes

---
 .../adders/qcla/classical_quantum/cq_sum_path.py         | 9 ++++++---
 .../adders/qcla/quantum_quantum/qq_qcla_adder.py         | 2 +-
 .../adders/qcla/quantum_quantum/qq_sum_path.py           | 8 +++-----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
index d8fe76e..13458bd 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
@@ -40,11 +40,14 @@ def cq_sum_path(a, b, c, R, ctrl=None):
         # https://arxiv.org/abs/quant-ph/0406142
         # We can use the formula
         # S = A (+) B (+) C
-        cx(c[:-1], b[1:])
+        cx(c, b[1:])
 
         for i in range(len(a)):
             if a[i] == "1":
-                x(b)
+                if ctrl is None:
+                    x(b[i])
+                else:
+                    cx(ctrl, b[i])
     else:
         # Execute addition using the corresponding carry values
         for i in range(len(c) + 1):
@@ -56,7 +59,7 @@ def cq_sum_path(a, b, c, R, ctrl=None):
                 gidney_adder(a_block, b_block, ctrl=ctrl)
             elif a_block != len(a_block) * "0":
                 gidney_adder(a_block, b_block, c_in=c[i - 1], ctrl=ctrl)
-            elif not check_if_fresh([c[i - 1]], c[i - 1].qs()):
+            elif i != 0 and not check_if_fresh([c[i - 1]], c[i - 1].qs()):
                 lin_incr(b_block, c_in=c[i - 1])
 
 
diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
index d1337ec..86bb9af 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
@@ -84,7 +84,7 @@ def qq_qcla(a, b, radix_base=2, radix_exponent=1, t_depth_reduction=True):
         x(b)
 
     # In the case R = 1 we can use automatic uncomputation which seems to perform better
-    if R == 1:
+    if R == 1 and t_depth_reduction:
         c.uncompute()
         return
     # Delete c
diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
index 5308fe1..573af7d 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
@@ -19,7 +19,7 @@ def qq_sum_path(a, b, c, R):
         # https://arxiv.org/abs/quant-ph/0406142
         # We can use the formula
         # S = A (+) B (+) C
-        cx(c[:-1], b[1:])
+        cx(c, b[1:])
         cx(a, b[: len(a)])
     else:
         i = 0
@@ -68,10 +68,8 @@ def qq_sum_path(a, b, c, R):
                 continue
 
             # Perform incrementation function
-            if R * j == 0:
-                lin_incr(b_block, c_out=c[j])
-            else:
-                lin_incr(b_block, c_in=c[j - 1], c_out=c[j])
+            # (the carry values are uncomputed by the calling function)
+            lin_incr(b_block, c_in=c[j - 1])
 
 
 # This function is a version of the sum path that requires no uncomputation after
-- 
2.43.0


From e74849134dad31832e6e0bbe74ae34c466f0684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:48 +0000
Subject: [PATCH 029/150] fix: respect the control for the carry-in of the
 vented adder

---
 .../arithmetic/adders/gidney_venting_adder.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py
index f87f1c9..9043d8a 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py
@@ -823,6 +823,15 @@ def gidney_cq_venting_adder(
         """
         clean0 = clean_anc[0]  # mid-carry ancilla (clean0 in paper notation)
 
+        # If the addition is controlled, the carry-in must be controlled as well.
+        carry_in = c_in
+        if c_in is not None and ctrl is not None:
+            c_in_qb = c_in[0] if isinstance(c_in, QuantumVariable) else c_in
+            ctrl_qb = ctrl[0] if isinstance(ctrl, QuantumVariable) else ctrl
+            carry_in_anc = QuantumBool(name="carry_in_anc*")
+            mcx([ctrl_qb, c_in_qb], carry_in_anc[0])
+            carry_in = carry_in_anc[0]
+
         # Step 1: Place clean0 into target[n_half].
         # Three CNOTs implement a SWAP so that carry_venting_adder on the
         # (n_half+1)-bit slice target[:n_half+1] writes the carry out of
@@ -834,7 +843,7 @@ def gidney_cq_venting_adder(
         # Step 2: Vented addition on bottom half (Fig. 2).
         # carry_venting_adder vents carries in the X-basis and returns
         # an integer ventmask whose k-th bit holds the k-th vent outcome.
-        ventmask_lo, _ = carry_venting_adder(d_lo, target[: n_half + 1], clean_anc[1:], c_in=c_in, ctrl=ctrl)
+        ventmask_lo, _ = carry_venting_adder(d_lo, target[: n_half + 1], clean_anc[1:], c_in=carry_in, ctrl=ctrl)
 
         # Step 3: Swap clean0 back out — clean0 now holds the carry into
         # the top half (the carry out of the bottom half).
@@ -881,17 +890,21 @@ def gidney_cq_venting_adder(
             with control((full_ventmask >> k) & 1):
                 z(workspace[k])
         # 6c — First carry_xor pass (second-pass carries into workspace)
-        carry_xor_block(d_lo, workspace, bottom, c_in, ctrl=ctrl)
+        carry_xor_block(d_lo, workspace, bottom, carry_in, ctrl=ctrl)
         # 6d — CZ again
         for k in jrange(n_half):
             with control((full_ventmask >> k) & 1):
                 z(workspace[k])
         # 6e — Second carry_xor pass (restore workspace)
-        carry_xor_block(d_lo, workspace, bottom, c_in, ctrl=ctrl)
+        carry_xor_block(d_lo, workspace, bottom, carry_in, ctrl=ctrl)
         # 6f — Restore bottom half: NOT cancels the complement from 6a
         for i in jrange(n_half):
             x(bottom[i])
 
+        if c_in is not None and ctrl is not None:
+            mcx([ctrl_qb, c_in_qb], carry_in_anc[0])
+            carry_in_anc.delete()
+
         clean_anc.delete()
 
     # initialize 3 clean ancillae
-- 
2.43.0


From be4a3716f84eec851b501cbe9dbf4d001420c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:04 +0000
Subject: [PATCH 030/150] fix: products of quantum floats with zero, with
 negated powers of two and in-place on unsigned floats

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py | 5 +++--
 src/qrisp/qtypes/quantum_float.py                     | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 0f5eef2..e295a45 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -1036,8 +1036,9 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
 
     if mult_int != 1:
         if treat_overflow:
-            extension_size = int(np.ceil(np.log2(abs(mult_int))))
-            qf.extend(extension_size, position=qf.size - 1)
+            # The smallest signed number has no negative counterpart of the same size
+            extension_size = int(np.ceil(np.log2(abs(mult_int)))) + int(mult_int == -1)
+            qf.extend(extension_size, position=qf.msize)
             if qf.signed:
                 cx(qf[-1], qf[-1 - extension_size : -1])
 
diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index 6d2a920..c1b0ab0 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -502,14 +502,19 @@ class QuantumFloat(QuantumVariable):
         if isinstance(other, QuantumFloat):
             return q_mult(self, other)
         elif isinstance(other, (int, np.integer)):
+            if other == 0:
+                return self.duplicate()
+
             bit_shift = 0
             while not other % 2:
                 other = other >> 1
                 bit_shift += 1
 
             if self.signed or other < 0:
+                # The smallest signed number has no negative counterpart of the same size
+                extension = int(np.ceil(np.log2(abs(other)))) + int(self.signed and other == -1)
                 output_qf = QuantumFloat(
-                    self.msize + int(np.ceil(np.log2(abs(other)))),
+                    self.msize + extension,
                     self.exponent,
                     signed=True,
                 )
-- 
2.43.0


From f086e0e419b469a16ec93412883b7694e81e6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:04 +0000
Subject: [PATCH 031/150] fix: respect the exponent in powers of quantum floats

---
 src/qrisp/qtypes/quantum_float.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index c1b0ab0..8971eb6 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -625,7 +625,7 @@ class QuantumFloat(QuantumVariable):
 
             return qf_inversion(self)
         elif power == 0:
-            res = self.duplicate()
+            res = QuantumFloat(1)
             res[:] = 1
             return res
         else:
@@ -639,7 +639,7 @@ class QuantumFloat(QuantumVariable):
 
             temp_results = [QuantumFloat((i + 1) * self.size) for i in range(power)]
 
-            res = QuantumFloat(self.size * power)
+            res = QuantumFloat(self.size * power, self.exponent * power)
             with conjugate(power_conjugator)(self, power, temp_results):
                 cx(temp_results[-1], res)
 
-- 
2.43.0


From 2fb0238d911a37a9030d0d06ce6265030cf8d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:04 +0000
Subject: [PATCH 032/150] fix: use plain integers for the format of sums of
 quantum floats outside of tracing

---
 src/qrisp/qtypes/quantum_float.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index 8971eb6..5ec838e 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -1191,6 +1191,10 @@ def create_output_qf(operands, op):
         max_sig = jnp.maximum(operands[0].mshape[1], operands[1].mshape[1]) + 1
         msize = max_sig - exponent + 1
 
+        if not check_for_tracing_mode():
+            exponent = int(exponent)
+            msize = int(msize)
+
         return QuantumFloat(msize, exponent, operands[0].qs, signed=signed, name="add_res*")
 
     if op == "mul":
@@ -1212,6 +1216,10 @@ def create_output_qf(operands, op):
         max_sig = jnp.maximum(operands[0].mshape[1], operands[1].mshape[1]) + 1
         msize = max_sig - exponent + 1
 
+        if not check_for_tracing_mode():
+            exponent = int(exponent)
+            msize = int(msize)
+
         return QuantumFloat(msize, exponent, operands[0].qs, signed=True, name="sub_res*")
 
 
-- 
2.43.0


From 8791b13c9cb4a65a4c554f7f35ebee29684432bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:04 +0000
Subject: [PATCH 033/150] fix: equality of quantum floats with differing
 formats

---
 .../alg_primitives/arithmetic/comparisons.py  | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/comparisons.py b/src/qrisp/alg_primitives/arithmetic/comparisons.py
index 0f7c872..f7d2923 100644
--- a/src/qrisp/alg_primitives/arithmetic/comparisons.py
+++ b/src/qrisp/alg_primitives/arithmetic/comparisons.py
@@ -208,9 +208,6 @@ def equal(qf_0, qf_1):
         mcx_qubits = []
         mcx_qubits += qf_0.reg
 
-        if qf_1.signed and qf_0.signed:
-            cx(qf_1.sign(), qf_0.sign())
-
         m0 = qf_0.msize
         m1 = qf_1.msize
         e0 = qf_0.exponent
@@ -219,21 +216,32 @@ def equal(qf_0, qf_1):
         # We calculate the overlap of bits with the same significance of qf_0 and qf_1.
         l = jnp.maximum(e0, e1)
         r = jnp.minimum(e0 + m0, e1 + m1)
-        d = r - l
+        d = jnp.maximum(r - l, 0)
+
+        # Indices (within the other operand) of the first digit, that is more
+        # significant than any digit of qf_1/qf_0
+        upper_0 = jnp.clip(e1 + m1 - e0, 0, m0)
+        upper_1 = jnp.clip(e0 + m0 - e1, 0, m1)
 
         def conjugator(qf_0, qf_1):
             for i in jrange(d):
                 cx(qf_1[i + l - e1], qf_0[i + l - e0])
 
-        mcx_qubits += qf_1.reg[: l - e1]
-        mcx_qubits += qf_1.reg[e0 + m0 - e1 : e1 + m1 - e1]
+            if qf_1.signed and qf_0.signed:
+                # Negative numbers are continued with the sign qubit
+                for i in jrange(m0 - upper_0):
+                    cx(qf_1.sign(), qf_0[i + upper_0])
+                for i in jrange(m1 - upper_1):
+                    cx(qf_0.sign(), qf_1[i + upper_1])
+
+                cx(qf_1.sign(), qf_0.sign())
+
+        mcx_qubits += qf_1.reg[: jnp.minimum(l - e1, upper_1)]
+        mcx_qubits += qf_1.reg[upper_1:m1]
 
         with conjugate(conjugator)(qf_0, qf_1):
             mcx(mcx_qubits, eq_qbl, ctrl_state=0)
 
-        if qf_1.signed and qf_0.signed:
-            cx(qf_1.sign(), qf_0.sign())
-
         return eq_qbl
 
     # if qf_0.truncate(qf_1) != qf_1:
-- 
2.43.0


From b07a348f7c3851c7fb61cea6ed60be64b6a9b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:04 +0000
Subject: [PATCH 034/150] fix: q_max and q_min for signed floats and formats
 without overlap

---
 .../arithmetic/arithmetic_tools.py            | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py b/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
index 67ea8a2..a55fc1e 100644
--- a/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
+++ b/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
@@ -60,7 +60,7 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
 
     # We calculate the overlap of bits with the same significance of a and b.
     l = jnp.maximum(a.mshape[0], b.mshape[0])
-    r = jnp.minimum(a.mshape[1], b.mshape[1])
+    r = jnp.maximum(l, jnp.minimum(a.mshape[1], b.mshape[1]))
 
     c = QuantumBool()
 
@@ -78,7 +78,7 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 )
 
         with control(c):
-            up_bd = jnp.minimum(a.size, l - a.exponent)
+            up_bd = jnp.minimum(a.msize, l - a.exponent)
             cx(a[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, a.exponent)
             cx(
@@ -86,10 +86,11 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 res[lw_bd - new_exponent : a.mshape[1] - new_exponent],
             )
             if a.signed:
-                cx(a.sign(), res.sign())
+                for i in jrange(a.mshape[1] - new_exponent, res.size):
+                    cx(a.sign(), res[i])
 
         with control(c, 0):
-            up_bd = jnp.minimum(b.size, l - b.exponent)
+            up_bd = jnp.minimum(b.msize, l - b.exponent)
             cx(b[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, b.exponent)
             cx(
@@ -97,7 +98,8 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 res[lw_bd - new_exponent : b.mshape[1] - new_exponent],
             )
             if b.signed:
-                cx(b.sign(), res.sign())
+                for i in jrange(b.mshape[1] - new_exponent, res.size):
+                    cx(b.sign(), res[i])
 
     c.delete()
 
@@ -140,7 +142,7 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
 
     # We calculate the overlap of bits with the same significance of a and b.
     l = jnp.maximum(a.mshape[0], b.mshape[0])
-    r = jnp.minimum(a.mshape[1], b.mshape[1])
+    r = jnp.maximum(l, jnp.minimum(a.mshape[1], b.mshape[1]))
 
     c = QuantumBool()
 
@@ -158,7 +160,7 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 )
 
         with control(c):
-            up_bd = jnp.minimum(a.size, l - a.exponent)
+            up_bd = jnp.minimum(a.msize, l - a.exponent)
             cx(a[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, a.exponent)
             cx(
@@ -166,10 +168,11 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 res[lw_bd - new_exponent : a.mshape[1] - new_exponent],
             )
             if a.signed:
-                cx(a.sign(), res.sign())
+                for i in jrange(a.mshape[1] - new_exponent, res.size):
+                    cx(a.sign(), res[i])
 
         with control(c, 0):
-            up_bd = jnp.minimum(b.size, l - b.exponent)
+            up_bd = jnp.minimum(b.msize, l - b.exponent)
             cx(b[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, b.exponent)
             cx(
@@ -177,7 +180,8 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 res[lw_bd - new_exponent : b.mshape[1] - new_exponent],
             )
             if b.signed:
-                cx(b.sign(), res.sign())
+                for i in jrange(b.mshape[1] - new_exponent, res.size):
+                    cx(b.sign(), res[i])
 
     c.delete()
 
-- 
2.43.0


From d2e2044ca7e7efdef2594b4d52392c2e6ade8e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:04 +0000
Subject: [PATCH 035/150] fix: let the Cuccaro adder accept lists of qubits and
 reduce classical summands

---
 .../arithmetic/adders/cuccaro_adder.py         | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
index a3710a4..6de2c33 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
@@ -20,7 +20,7 @@ import jax.numpy as jnp
 from qrisp.circuit import Qubit
 from qrisp.core import QuantumVariable, cx, mcx, x
 from qrisp.environments import conjugate, custom_control
-from qrisp.jasp import check_for_tracing_mode, jlen, jrange
+from qrisp.jasp import DynamicQubitArray, check_for_tracing_mode, jlen, jrange
 from qrisp.misc import int_encoder
 from qrisp.qtypes import QuantumBool, QuantumFloat
 
@@ -86,9 +86,13 @@ def cuccaro_adder(
 
     """
     # convert the classical input to a quantum input
-    if not isinstance(a, QuantumVariable):
+    if not isinstance(a, (QuantumVariable, list, DynamicQubitArray)):
         # create a QuantumFloat of the same size as the other quantum input
-        q_a = b.duplicate()
+        q_a = QuantumFloat(jlen(b))
+
+        # the addition is performed modulo 2**len(b)
+        if not check_for_tracing_mode():
+            a = int(a) % 2 ** len(b)
 
         with conjugate(int_encoder)(q_a, a):
             cuccaro_adder(q_a, b, c_in=c_in, c_out=c_out, ctrl=ctrl)
@@ -98,13 +102,13 @@ def cuccaro_adder(
         q_a.delete()
         return
 
-    if not isinstance(b, QuantumVariable):
-        raise ValueError("The second argument must be of type QuantumVariable.")
+    if not isinstance(b, (QuantumVariable, list, DynamicQubitArray)):
+        raise ValueError("The second argument must be of type QuantumVariable or list[Qubit].")
 
     # when the inputs are of unequal length
     # pad the size of the input with the smaller size
-    dim_a = a.size
-    dim_b = b.size
+    dim_a = jlen(a)
+    dim_b = jlen(b)
 
     max_size = jnp.maximum(dim_a, dim_b)
 
-- 
2.43.0


From 1e3e201b33720757abc940f61fff56a36dff7715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:04 +0000
Subject: [PATCH 036/150] fix: best rational approximation of big integers

---
 .../jasp_arithmetic/jasp_bigintiger.py        | 39 ++++++++-----------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
index feefe67..1ee16c0 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
@@ -1608,20 +1608,13 @@ def bi_contfrac_best_approx(
     if max_iters is None:
         max_iters = int(2 * 32 * n_limbs + 4)
 
-    @jax.jit
-    def _loop(
-        a0: BigInteger,
-        b0: BigInteger,
-        p0: BigInteger,
-        p1: BigInteger,
-        q0: BigInteger,
-        q1: BigInteger,
-        res_p: BigInteger,
-        res_q: BigInteger,
-        done: bool,
-        i: int,
-    ) -> tuple:
+    def _select(pred, on_true: BigInteger, on_false: BigInteger) -> BigInteger:
+        return BigInteger(jnp.where(pred, on_true.digits, on_false.digits))
+
+    def _loop(state: tuple) -> tuple:
         """One step of CF with bound handling. Internal helper for while_loop."""
+        a0, b0, p0, p1, q0, q1, res_p, res_q, done, i = state
+
         # Compute quotient and remainder
         quot = a0 // b0
         rem = a0 % b0
@@ -1644,21 +1637,21 @@ def bi_contfrac_best_approx(
         q_bound = t * q1 + q0
 
         # Choose final result when done at this step
-        sel_p = jax.lax.select(exceed, p_bound, pn)
-        sel_q = jax.lax.select(exceed, q_bound, qn)
+        sel_p = _select(exceed, p_bound, pn)
+        sel_q = _select(exceed, q_bound, qn)
 
         # Update result slots if we finish now
-        res_p_next = jax.lax.select(jnp.logical_or(exceed, exact_end), sel_p, res_p)
-        res_q_next = jax.lax.select(jnp.logical_or(exceed, exact_end), sel_q, res_q)
+        res_p_next = _select(jnp.logical_or(exceed, exact_end), sel_p, res_p)
+        res_q_next = _select(jnp.logical_or(exceed, exact_end), sel_q, res_q)
         done_next = jnp.logical_or(done, jnp.logical_or(exceed, exact_end))
 
         # Prepare state for next iteration (if not done)
-        a_next = jax.lax.select(done_next, a0, b0)
-        b_next = jax.lax.select(done_next, b0, rem)
-        p0_next = jax.lax.select(done_next, p0, p1)
-        p1_next = jax.lax.select(done_next, p1, pn)
-        q0_next = jax.lax.select(done_next, q0, q1)
-        q1_next = jax.lax.select(done_next, q1, qn)
+        a_next = _select(done_next, a0, b0)
+        b_next = _select(done_next, b0, rem)
+        p0_next = _select(done_next, p0, p1)
+        p1_next = _select(done_next, p1, pn)
+        q0_next = _select(done_next, q0, q1)
+        q1_next = _select(done_next, q1, qn)
         i_next = i + jnp.int32(1)
         return (
             a_next,
-- 
2.43.0


From 283b58e4789d5cd4d79b0635d6f237716be652a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:16 +0000
Subject: [PATCH 037/150] fix: verify the claimed permeability of every
 argument of wrapped functions

---
 src/qrisp/misc/utility.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 094fc3d..1b60ca6 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -651,19 +651,19 @@ def gate_wrap_inner(function, permeability=None, is_qfree=None, name=None, verif
                 #     if permeability_dict[i] is None:
                 #         permeability_dict[i] = False
 
-                if verify:
-                    from qrisp.permeability import is_permeable
+            if verify:
+                from qrisp.permeability import is_permeable
 
-                    permeable_qubit_indices = []
+                permeable_qubit_indices = []
 
-                    for i in range(gwe.instruction.op.num_qubits):
-                        if permeability_dict[i]:
-                            permeable_qubit_indices.append(i)
+                for i in range(gwe.instruction.op.num_qubits):
+                    if permeability_dict[i]:
+                        permeable_qubit_indices.append(i)
 
-                    if not is_permeable(gwe.instruction.op, permeable_qubit_indices):
-                        raise Exception(f"Verification of permeability for function {function.__name__} failed")
+                if not is_permeable(gwe.instruction.op, permeable_qubit_indices):
+                    raise Exception(f"Verification of permeability for function {function.__name__} failed")
 
-                gwe.instruction.op.permeability = permeability_dict
+            gwe.instruction.op.permeability = permeability_dict
 
         return result
 
-- 
2.43.0


From 4a30d0bb8bb63e461f009737c417c8849950faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:16 +0000
Subject: [PATCH 038/150] fix: uncomputation of gates that share several qubits
 with their predecessor

---
 src/qrisp/permeability/permeability_dag.py      | 17 ++++++++++-------
 .../permeability/qc_transformations/unqomp.py   |  3 ++-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/qrisp/permeability/permeability_dag.py b/src/qrisp/permeability/permeability_dag.py
index 05bd044..01d6521 100644
--- a/src/qrisp/permeability/permeability_dag.py
+++ b/src/qrisp/permeability/permeability_dag.py
@@ -229,7 +229,12 @@ class PermeabilityGraph(nx.DiGraph):
         if self.has_edge(in_node, out_node):
             nx.DiGraph.get_edge_data(self, in_node, out_node)["qubits"].extend(qubits)
         else:
-            nx.DiGraph.add_edge(self, in_node, out_node, edge_type=edge_type, qubits=list(qubits))
+            nx.DiGraph.add_edge(self, in_node, out_node, edge_type=edge_type, qubits=list(qubits), qubit_types={})
+
+        # Two nodes can be connected by several qubits with differing permeability types
+        qubit_types = nx.DiGraph.get_edge_data(self, in_node, out_node)["qubit_types"]
+        for qb in qubits:
+            qubit_types.setdefault(qb, edge_type)
 
     def get_target_qubits(self, node):
         """Returns the target qubits of a node, i.e. the qubits that have either neutral or X-permeability.
@@ -257,8 +262,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] != "Z":
-                target_qubits.extend(data["qubits"])
+            target_qubits.extend([qb for qb in data["qubits"] if data["qubit_types"][qb] != "Z"])
 
         return target_qubits
 
@@ -291,8 +295,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] == "Z":
-                control_qubits.extend(data["qubits"])
+            control_qubits.extend([qb for qb in data["qubits"] if data["qubit_types"][qb] == "Z"])
 
         return control_qubits
 
@@ -323,7 +326,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] == "Z":
+            if "Z" in data["qubit_types"].values():
                 control_nodes.append(in_node)
 
         return control_nodes
@@ -355,7 +358,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] != "Z":
+            if data["edge_type"] != "Z" or set(data["qubit_types"].values()) - {"Z"}:
                 target_nodes.append(in_node)
 
         return target_nodes
diff --git a/src/qrisp/permeability/qc_transformations/unqomp.py b/src/qrisp/permeability/qc_transformations/unqomp.py
index f34f3e8..ac9707b 100644
--- a/src/qrisp/permeability/qc_transformations/unqomp.py
+++ b/src/qrisp/permeability/qc_transformations/unqomp.py
@@ -280,8 +280,9 @@ def uncompute_node(pdag, node, uncomp_qbs, recompute_qubits=[]):
 
     # This dictionary will hold the control qubits of each control edge
     ctrl_qubit_dic = {}
+    control_qubits = pdag.get_control_qubits(node)
     for c in ctrls:
-        ctrl_qubit_dic[c] = pdag.get_edge_qubits(c, node)
+        ctrl_qubit_dic[c] = [qb for qb in pdag.get_edge_qubits(c, node) if qb in control_qubits]
 
     while len(ctrls):
         # Set alias
-- 
2.43.0


From bfbce2b56780eb7dbbd022c01c012f6cba49e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:16 +0000
Subject: [PATCH 039/150] fix: keep allocations apart from composite gates when
 fusing neighbouring gates

---
 src/qrisp/circuit/pass_management/passes/fuse_adjacents.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 5ee1273..7b29894 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -511,6 +511,10 @@ def _fuse_operations(op_a, op_b, gphase_array):
     #    cancellation only becomes visible after decomposition.
     #    This is an escape hatch for cases where the inverse names
     #    don't match but the decompositions partially cancel.
+    #    (De)allocations must stay visible for the memory management.
+    if op_a.name.endswith("alloc") or op_b.name.endswith("alloc"):
+        return None
+
     if (op_a.definition or op_b.definition) and op_a.num_clbits == 0 == op_b.num_clbits:
         result = _fuse_via_transpile(op_a, op_b)
         if result is not None:
-- 
2.43.0


From ca57bb5f14fe5ca86658c1d600eadd35c8853d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:16 +0000
Subject: [PATCH 040/150] fix: uncomputation of disjunctions of quantum bools

---
 src/qrisp/qtypes/quantum_bool.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/qtypes/quantum_bool.py b/src/qrisp/qtypes/quantum_bool.py
index f62681e..9c22b46 100644
--- a/src/qrisp/qtypes/quantum_bool.py
+++ b/src/qrisp/qtypes/quantum_bool.py
@@ -154,13 +154,8 @@ class QuantumBool(QuantumVariable):
 
         or_qbl = QuantumBool()
 
-        x(self)
-        x(other)
-
-        mcx(self.reg + other.reg, or_qbl[0])
-
-        x(self)
-        x(other)
+        # Flipping the operands instead would prevent the uncomputation of the result
+        mcx(self.reg + other.reg, or_qbl[0], ctrl_state=0)
 
         x(or_qbl)
 
-- 
2.43.0


From 046cb44bf6615f81c597f1d08b453ad8a8d95541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:55 +0000
Subject: [PATCH 041/150] fix: phase of the measurement based Jones Toffoli
 gate

---
 src/qrisp/alg_primitives/mcx_algs/circuit_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
index 2152324..6aaa90a 100644
--- a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
+++ b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
@@ -145,7 +145,7 @@ selinger_toffoli_qc.h(2)
 # Implementation of the T-Depth 1 Toffoli found in https://arxiv.org/pdf/1212.5069.pdf
 jones_toffoli_qc = QuantumCircuit(5, 1)
 jones_toffoli_qc.append(selinger_toffoli_qc.to_gate("selinger_quasi_toffoli"), [0, 1, 3, 4])
-jones_toffoli_qc.s(3)
+jones_toffoli_qc.s_dg(3)
 jones_toffoli_qc.cx(3, 2)
 jones_toffoli_qc.h(3)
 jones_toffoli_qc.measure(3, 0)
-- 
2.43.0


From 3b0bff2e61a41eafe840dcb31040bd8f645b9330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:19 +0000
Subject: [PATCH 042/150] fix: track abstract parameters of gates appended
 during environment compilation

---
 src/qrisp/circuit/quantum_circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/circuit/quantum_circuit.py b/src/qrisp/circuit/quantum_circuit.py
index 8f4a4df..ab8a773 100644
--- a/src/qrisp/circuit/quantum_circuit.py
+++ b/src/qrisp/circuit/quantum_circuit.py
@@ -1510,6 +1510,7 @@ class QuantumCircuit:
     ) -> None:
         """Handle the XLA accelerated compilation fast path."""
         if isinstance(operation_or_instruction, Instruction):
+            self.abstract_params.update(operation_or_instruction.op.abstract_params)
             self.data.append(operation_or_instruction)
             return
         if self.xla_mode <= 1:
@@ -1526,6 +1527,7 @@ class QuantumCircuit:
                         f"{qubits} in accelerated compilation mode "
                         "(allowed is type List[Qubit])."
                     )
+        self.abstract_params.update(operation_or_instruction.abstract_params)
         self.data.append(Instruction(operation_or_instruction, qubits, clbits))
 
     def _apply_broadcast(
-- 
2.43.0


From 1eddbb477bc2452409dc8f64e3f72d84c8c1db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:19 +0000
Subject: [PATCH 043/150] fix: T-depth of controlled Y gates

---
 src/qrisp/misc/utility.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 1b60ca6..cb2a46a 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1932,6 +1932,7 @@ def t_depth_indicator(op, epsilon):
     elif op.name in [
         "cx",
         "cx",
+        "cy",
         "cz",
         "x",
         "y",
-- 
2.43.0


From 3a57169a40e077aa84cc209996838b0531ea6ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:38 +0000
Subject: [PATCH 044/150] fix: equal outcome arrays have equal hashes

---
 src/qrisp/core/quantum_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index 81f8b94..98e9366 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -2225,8 +2225,8 @@ class OutcomeArray(np.ndarray):
         return obj
 
     def __hash__(self):
-        return hash(self.ravel().data.tobytes())
-        # return hash(str(self))
+        # Hash the values (and not the memory), such that equal arrays have equal hashes
+        return hash((self.shape, tuple(self.ravel().tolist())))
 
     def __eq__(self, other):
         return np.array_equal(self, other)
-- 
2.43.0


From 3913079aaac176538e7905c495fc681dca468ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:38 +0000
Subject: [PATCH 045/150] fix: exclusive or of quantum variables of different
 sizes

---
 src/qrisp/core/quantum_variable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index ed7f7f8..0ae2ebf 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -392,6 +392,12 @@ class QuantumVariable:
             cx(self[i], and_res[i])
             cx(other[i], and_res[i])
 
+        for i in range(min(len(self), len(other)), len(self)):
+            cx(self[i], and_res[i])
+
+        for i in range(min(len(self), len(other)), len(other)):
+            cx(other[i], and_res[i])
+
         return and_res
 
     def __lshift__(self, other):
-- 
2.43.0


From 7fc7052d2c8d15c920f7909b265760ac8b62bd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:38 +0000
Subject: [PATCH 046/150] fix: joint measurement results add up outcomes with
 the same labels

---
 src/qrisp/interface/measurement_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/interface/measurement_result.py b/src/qrisp/interface/measurement_result.py
index 10e81c3..536a143 100644
--- a/src/qrisp/interface/measurement_result.py
+++ b/src/qrisp/interface/measurement_result.py
@@ -429,7 +429,7 @@ class MultiMeasurementResult(LazyDict):
 
             outcome = tuple(labels)
             try:
-                new_counts[outcome] = count / total
+                new_counts[outcome] = new_counts.get(outcome, 0) + count / total
             except TypeError as exc:
                 raise TypeError(
                     "Tried to create measurement outcome dic for QuantumVariable with unhashable labels"
-- 
2.43.0


From 9bb12a624aaf8b495c99592262351d5e8397b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:38 +0000
Subject: [PATCH 047/150] fix: phase of basis states in symbolic statevectors

---
 src/qrisp/misc/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index cb2a46a..d9a7e45 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1635,7 +1635,7 @@ def get_sympy_state(qs, decimals):
                 try:
                     abs_amp = trigify_amp(amplitude, nnz)
                 except TypeError:
-                    abs_amp = amplitude
+                    abs_amp = float(np.abs(amplitude))
 
                 # For some reason there is a sympy error, when the angle is equal to 1
                 if angles[ind] == 1:
-- 
2.43.0


From 6f9ff00cb22494b1c27c75736be9b0d45fe1756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:18 +0000
Subject: [PATCH 048/150] fix: phases of products that overflow or are added to
 another value

hybrid_mult corrected the phases it introduces with gates on the result.
This is only right if the result contains the product and nothing else.
Products that overflow the result, or that are added to its content, now
use the correction that acts on the factors.
---
 .../arithmetic/SBP_arithmetic.py              | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index e295a45..a357eb0 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -728,6 +728,21 @@ def hybrid_mult(
     else:
         output_qf.exp_shift(-(x_exp + y_exp))
 
+    # The phases introduced by this algorithm only depend on the product of the factors.
+    # They can therefore be corrected with single qubit gates on the result, if the result
+    # contains nothing but the (not overflown) product.
+    x_bounds = (-(2**x.msize) * x.signed, 2**x.msize - 1)
+    y_bounds = (-(2**y.msize) * y.signed, 2**y.msize - 1)
+    scaling = cl_factor * 2.0**-output_qf.exponent
+    products = [scaling * x_bound * y_bound for x_bound in x_bounds for y_bound in y_bounds]
+    correct_on_result = (
+        init_op == "h"
+        and terminal_op == "qft"
+        and scaling % 1 == 0
+        and min(products) >= -(2**output_qf.msize) * output_qf.signed
+        and max(products) < 2**output_qf.msize
+    )
+
     output_qf.extend(1, position=0)
 
     # output_qf.exp_shift(-1)
@@ -806,7 +821,7 @@ def hybrid_mult(
 
     # Negate output_qf in order to perform the conditional addition/subtraction
 
-    if not phase_tolerant and terminal_op != "qft":
+    if not phase_tolerant and not correct_on_result:
         hybrid_mult_anc = QuantumVariable(1)
         if y.signed:
             cx(y[-1], hybrid_mult_anc[0])
@@ -823,7 +838,7 @@ def hybrid_mult(
         # because if y[i] is active output_qf has been negated
         applied_phases = U_g_inpl_adder(output_qf, x, -(2**i) * cl_factor)
 
-        if not phase_tolerant and terminal_op != "qft":
+        if not phase_tolerant and not correct_on_result:
             if i != 0:
                 cx(y[i - 1], hybrid_mult_anc[0])
             cx(y[i], hybrid_mult_anc[0])
@@ -848,7 +863,7 @@ def hybrid_mult(
             # of y (command [6])
             cx(y[i], output_qf)  # command [5]
 
-    if not phase_tolerant and terminal_op != "qft":
+    if not phase_tolerant and not correct_on_result:
         cx(y[i], hybrid_mult_anc[0])
         if y.signed:
             cx(y[-1], hybrid_mult_anc[0])
@@ -883,7 +898,7 @@ def hybrid_mult(
     if terminal_op == "qft":
         QFT(output_qf, inv=True, exec_swap=False)
 
-    if not phase_tolerant and terminal_op == "qft":
+    if not phase_tolerant and correct_on_result:
         # This is a phase tolerant correction using only single qubit gates.
         # We found it by looking at the sbp of the correction using cp gates and
         # identified the sbp of x*y in it.
-- 
2.43.0


From f073fb360b3e7fd8aa7d01ccb9d08d3e15d01e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:33 +0000
Subject: [PATCH 049/150] fix: comparison of negative numbers with non-adjacent
 digits

---
 src/qrisp/alg_primitives/arithmetic/comparisons.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qrisp/alg_primitives/arithmetic/comparisons.py b/src/qrisp/alg_primitives/arithmetic/comparisons.py
index f7d2923..6f64c60 100644
--- a/src/qrisp/alg_primitives/arithmetic/comparisons.py
+++ b/src/qrisp/alg_primitives/arithmetic/comparisons.py
@@ -239,6 +239,11 @@ def equal(qf_0, qf_1):
         mcx_qubits += qf_1.reg[: jnp.minimum(l - e1, upper_1)]
         mcx_qubits += qf_1.reg[upper_1:m1]
 
+        if qf_1.signed and qf_0.signed:
+            # If there is a gap between the digits of the operands, the sign bits of
+            # the lower one reach into the gap. Negative numbers can't be equal then.
+            mcx_qubits += qf_1.reg[m1 : m1 + jnp.where(l > r, 1, 0)]
+
         with conjugate(conjugator)(qf_0, qf_1):
             mcx(mcx_qubits, eq_qbl, ctrl_state=0)
 
-- 
2.43.0


From b597e07b55a2f1cf53cca525b9cf25f146fcb15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:33 +0000
Subject: [PATCH 050/150] fix: concatenation, duplication and deletion of array
 views

---
 src/qrisp/core/quantum_array.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index 98e9366..4b09afa 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -581,8 +581,8 @@ class QuantumArray:
         if check_for_tracing_mode():
             self.qs.clear_qubits(self.qb_array)
         else:
-            for i in range(self.size):
-                self.qv_list[i].delete(verify=verify)
+            for qv in self.flatten():
+                qv.delete(verify=verify)
 
     def measure(self):
         from qrisp.core.gate_application_functions import measure
@@ -961,7 +961,13 @@ class QuantumArray:
 
         res = copy.copy(self)
 
-        ind_array_other_shifted = other.ind_array + self.size
+        # The arrays might be views, i.e. hold more elements than the ones indexed
+        if check_for_tracing_mode():
+            element_amount = self.qb_array.size // self.qtype_size
+        else:
+            element_amount = len(self.qv_list)
+
+        ind_array_other_shifted = other.ind_array + element_amount
 
         concat_ind_array = jnp.concatenate((self.ind_array, ind_array_other_shifted), axis=axis)
 
@@ -1032,8 +1038,13 @@ class QuantumArray:
             if init:
                 from qrisp import cx
 
-                for i in jrange(self.size * self.qtype_size):
-                    cx(self.qb_array[i], res.qb_array[i])
+                flattened_ind_array = self.ind_array.flatten()
+                for i in jrange(self.size):
+                    for j in jrange(self.qtype_size):
+                        cx(
+                            self.qb_array[flattened_ind_array[i] * self.qtype_size + j],
+                            res.qb_array[i * self.qtype_size + j],
+                        )
 
         else:
             if qs is None:
@@ -1042,8 +1053,11 @@ class QuantumArray:
                 res.qs = qs
 
             res.qv_list = []
-            for i in range(self.size):
-                res.qv_list.append(self.qv_list[i].duplicate(name=self.qtype.name + "*", qs=res.qs, init=init))
+            for qv in self.flatten():
+                res.qv_list.append(qv.duplicate(name=self.qtype.name + "*", qs=res.qs, init=init))
+
+        # The array might be a view, the elements of the result are in the order of the view
+        res.ind_array = jnp.arange(self.size).reshape(self.shape)
 
         return res
 
-- 
2.43.0


From 83e62d2214f7c49acb726fe65e987eb0265d27eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:33 +0000
Subject: [PATCH 051/150] fix: phases, result formats and shapes of quantum
 matrix products

- the overflow free result format now holds every result
- phases of products with more than one summand are corrected once
- dot supports non-square operands
- negative entries in inplace_matrix_app
---
 .../arithmetic/matrix_multiplication.py       | 110 ++++++++----------
 src/qrisp/qtypes/quantum_float.py             |   5 +
 2 files changed, 55 insertions(+), 60 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
index 3bba091..4fd7d42 100644
--- a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
+++ b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
@@ -85,6 +85,9 @@ def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_
     K = q_array_0.shape[1]
     J = q_array_1.shape[1]
 
+    # Indicates whether the result is guaranteed to not overflow
+    safe_result = output_array is None and isinstance(res_bit_shape, str) and res_bit_shape == "safe"
+
     if output_array is not None:
         res = output_array
 
@@ -94,7 +97,7 @@ def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_
         if isinstance(res_bit_shape, QuantumFloat):
             qtype = res_bit_shape.duplicate()
 
-        if res_bit_shape == "safe":
+        elif safe_result:
             from sympy import Symbol
 
             q_array_0_symbols = []
@@ -111,7 +114,7 @@ def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_
 
             qtype = create_output_qf(list(q_array_0.flatten()) + list(q_array_1.flatten()), poly)
 
-        if res_bit_shape == "eq":
+        elif res_bit_shape == "eq":
             qtype = q_array_0[0, 0]
 
         res = QuantumArray(shape=(L, J), qtype=qtype, qs=q_array_0.qs)
@@ -142,44 +145,24 @@ def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_
 
                 # If the res_bit_shape is safe,we can use the strategy
                 # of correcting phases on the result as displayed in hybrid mult
-                if res_bit_shape == "safe" and not phase_tolerant:
-                    if k == 0:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op="h",
-                            terminal_op=None,
-                            phase_tolerant=True,
-                        )
-
-                    elif k == K - 1:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op=None,
-                            terminal_op="qft",
-                            phase_tolerant=True,
-                        )
-
-                    elif k != q_array_0.shape[1] - 1:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op=None,
-                            terminal_op=None,
-                            phase_tolerant=True,
-                        )
+                if safe_result and not phase_tolerant:
+                    hybrid_mult(
+                        q_array_0[i, k],
+                        q_array_1[k, j],
+                        output_qf=res[i, j],
+                        init_op="h" if k == 0 else None,
+                        terminal_op="qft" if k == K - 1 else None,
+                        phase_tolerant=True,
+                    )
 
+                    if k == K - 1:
                         for m in range(res[i, j].size):
                             p(
-                                -(2 * np.pi) * 2**l / 2 ** (res[i, j].size + 1),
+                                -(2 * np.pi) * 2**m / 2 ** (res[i, j].size + 1),
                                 res[i, j][m],
                             )
 
-                        if res[i, j].signed and K % 2:
+                        if res[i, j].signed:
                             z(res[i, j][-1])
 
                 elif k == 0:
@@ -283,19 +266,31 @@ def semi_classic_matmul(q_matrix, cl_matrix, output_array=None, res_bit_shape="e
         if isinstance(res_bit_shape, QuantumFloat):
             qtype = res_bit_shape.duplicate()
 
-        if res_bit_shape == "safe":
-            q_array_0_symbols = []
-            poly = 0
-            for i in range(K):
-                q_array_0_symbols.append(Symbol(q_matrix[0, i].name))
+        elif res_bit_shape == "safe":
+            element = q_matrix[0, 0]
+            coefficients = np.asarray(cl_matrix, dtype=float)
 
-                poly += Symbol(q_matrix[0, i].name)
+            # Determine the amount of fractional digits of the coefficients
+            fractional_digits = 0
+            while np.any(coefficients * 2.0**fractional_digits % 1):
+                fractional_digits += 1
 
-            from qrisp.alg_primitives.arithmetic import create_output_qf
+            exponent = element.exponent - fractional_digits
+
+            # The absolute value of the entries of the result is bounded by this number
+            bound = np.max(np.sum(np.abs(coefficients), axis=0)) * 2.0 ** element.mshape[1]
+            if element.signed:
+                bound += 2.0**exponent
 
-            qtype = create_output_qf(list(q_matrix.flatten()), poly)
+            max_sig = max(int(np.ceil(np.log2(max(bound, 2.0**exponent)))), exponent + 1)
 
-        if res_bit_shape == "eq":
+            qtype = QuantumFloat(
+                max_sig - exponent,
+                exponent,
+                signed=bool(element.signed or np.any(coefficients < 0)),
+            )
+
+        elif res_bit_shape == "eq":
             qtype = q_matrix[0, 0]
 
         output_array = QuantumArray(shape=(L, J), qtype=qtype, qs=q_matrix.qs)
@@ -450,7 +445,7 @@ def inplace_matrix_app(vector, matrix):
                 raise Exception("Could not find invertible element")
 
         # Generate inverse equation
-        eval_inverse = modinv(coeff, 2**bit) * (-target_values[i].subs({x[j]: 0}) + ancilla_symbol)
+        eval_inverse = modinv(coeff % 2**bit, 2**bit) * (-target_values[i].subs({x[j]: 0}) + ancilla_symbol)
 
         from qrisp.qtypes.quantum_float import trunc_poly
 
@@ -490,7 +485,6 @@ def inplace_matrix_app(vector, matrix):
 
         # Now determine the remaining polynomial
         eval_poly = eval_eq[i].subs({x[elim_var]: 0})
-        print(inplace_mult_coeff)
         polynomial_encoder(
             non_elim_var_list,
             vector[elim_var],
@@ -601,30 +595,26 @@ def dot(a, b, out=None):
         return auto_matmul_wrapper(a, b, out)
 
     elif len(b.shape) == 1:
-        temp_0 = a.reshape((a.size // b.shape[-1], b.shape[-1]))
+        temp_0 = a.reshape((a.size // b.shape[0], b.shape[0]))
         temp_1 = b.reshape((b.shape[0], 1))
 
-        new_shape = list(b.shape)
-        new_shape[-1] = b.shape[0]
-
-        res = (auto_matmul_wrapper(temp_0, temp_1, out)).reshape(new_shape)
-
-        return res
+        return auto_matmul_wrapper(temp_0, temp_1, out).reshape(tuple(a.shape[:-1]))
 
     else:
-        temp_0 = a.reshape((a.size // b.shape[-1], b.shape[-1]))
+        K = b.shape[-2]
 
-        temp_1 = np.swapaxes(b, 0, -2)
-        temp_1 = np.reshape(temp_1, (temp_1.shape[0], temp_1.size // temp_1.shape[0]))
+        temp_0 = a.reshape((a.size // K, K))
 
-        res = auto_matmul_wrapper(temp_0, temp_1, out)
+        # For vectors a, the result has an additional first axis of size 1
+        res_shape = (tuple(a.shape[:-1]) or (1,)) + tuple(b.shape[:-2]) + tuple(b.shape[-1:])
 
-        res_shape = list(temp_1.shape)
-        res_shape.pop(-2)
+        axes = list(range(b.ndim))
+        axes.insert(0, axes.pop(-2))
+        temp_1 = b.transpose(axes).reshape((K, b.size // K))
 
-        res_shape = list(temp_0.shape)[:-1] + res_shape
+        res = auto_matmul_wrapper(temp_0, temp_1, out)
 
-        return np.reshape(res, res_shape)
+        return res.reshape(res_shape)
 
 
 def tensordot(a, b, axes):
diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index 5ec838e..2f8de20 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -1163,6 +1163,11 @@ def create_output_qf(operands, op):
 
         max_poly_value = float(abs_poly.subs(max_value_dic))
 
+        # The product of two smallest (signed) values exceeds the range of the
+        # mantissa, if the bound is a power of two.
+        if sum([int(operand.signed) for operand in operands]) > 1:
+            max_poly_value += min_poly_value
+
         min_sig = int(np.floor(np.log2(min_poly_value)))
         max_sig = int(np.ceil(np.log2(max_poly_value)))
 
-- 
2.43.0


From 1fd6a706778564b7f6232c7f96baa123f31eda01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:44 +0000
Subject: [PATCH 052/150] fix: reset of registers in the boolean simulation

---
 .../interpreter_tools/interpreters/cl_func_interpreter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
index a1b781f..da3c707 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
@@ -994,15 +994,15 @@ def process_reset(eqn: JaxprEqn, context_dic: ContextDict) -> None:
 
     if isinstance(eqn.invars[0].aval, AbstractQubitArray):
         # Reset all qubits in the array
-        start = invalues[0][0]
-        stop = start + invalues[0][1]
+        qubit_reg = invalues[0]
 
         def loop_body(i: int, bit_array: BitArray) -> BitArray:
             """Reset a single qubit by flipping it if it's 1."""
-            bit_array = conditional_bit_flip_bit_array(bit_array, i, get_bit_array(bit_array, i))
+            qubit = qubit_reg[i]
+            bit_array = conditional_bit_flip_bit_array(bit_array, qubit, get_bit_array(bit_array, qubit))
             return bit_array
 
-        bit_array = fori_loop(start, stop, loop_body, bit_array)
+        bit_array = fori_loop(0, qubit_reg.counter, loop_body, bit_array)
     else:
         # Reset a single qubit
         bit_array = conditional_bit_flip_bit_array(bit_array, invalues[0], get_bit_array(bit_array, invalues[0]))
-- 
2.43.0


From 40dfead016ab9b3f662b9897b444a35f8fddc01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:44 +0000
Subject: [PATCH 053/150] fix: controlled phase gates in the boolean simulation

---
 .../interpreter_tools/interpreters/cl_func_interpreter.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
index da3c707..b91dc8e 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
@@ -375,6 +375,12 @@ def process_op(op: Operation, invars: list[Var], outvars: list[Var], context_dic
         "z",
         "pt2cx",
         "swap",
+        "rz",
+        "t",
+        "s",
+        "t_dg",
+        "s_dg",
+        "p",
     ]:
         # Phase gates have no effect on classical states - skip them
         if op.base_operation.name in ["z", "rz", "t", "s", "t_dg", "s_dg", "p"]:
-- 
2.43.0


From 15f8a1f6820ffdd6014b2fe69584154cf7c50acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:44 +0000
Subject: [PATCH 054/150] fix: q_cond and q_switch with branches that do
 nothing

---
 src/qrisp/jasp/program_control/prefix_control.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/jasp/program_control/prefix_control.py b/src/qrisp/jasp/program_control/prefix_control.py
index a4b15db..60cc78f 100644
--- a/src/qrisp/jasp/program_control/prefix_control.py
+++ b/src/qrisp/jasp/program_control/prefix_control.py
@@ -26,6 +26,11 @@ from qrisp.jasp.tracing_logic import (
 )
 
 
+def returns_quantum_state(jaxpr):
+    outvars = jaxpr.jaxpr.outvars
+    return len(outvars) > 0 and isinstance(outvars[-1].aval, AbstractQuantumState)
+
+
 def q_while_loop(cond_fun, body_fun, init_val):
     """Jasp compatible version of
     `jax.lax.while_loop <https://jax.readthedocs.io/en/latest/_autosummary/jax.lax.while_loop.html#jax.lax.while_loop>`_.
@@ -341,9 +346,8 @@ def q_cond(pred, true_fun, false_fun, *operands):
 
     from qrisp.jasp import Jaspr
 
-    if (not isinstance(false_jaxpr.jaxpr.outvars[-1].aval, AbstractQuantumState)) and (
-        not isinstance(true_jaxpr.jaxpr.outvars[-1].aval, AbstractQuantumState)
-    ):
+    # Jax removes results from the branches, that are forwarded in each of them
+    if not any(returns_quantum_state(branch_jaxpr) for branch_jaxpr in [false_jaxpr, true_jaxpr]):
         eqn.invars.pop(-1)
         false_jaxpr.jaxpr.invars.pop(-1)
         true_jaxpr.jaxpr.invars.pop(-1)
@@ -464,9 +468,7 @@ def _q_switch_c(index, branches, *operands):
 
     from qrisp.jasp import Jaspr
 
-    if all(
-        [not isinstance(branch_jaxpr.jaxpr.outvars[-1].aval, AbstractQuantumState) for branch_jaxpr in branch_jaxprs]
-    ):
+    if not any(returns_quantum_state(branch_jaxpr) for branch_jaxpr in branch_jaxprs):
         eqn.invars.pop(-1)
         [branch_jaxpr.jaxpr.invars.pop(-1) for branch_jaxpr in branch_jaxprs]
         return switch_res[0]
-- 
2.43.0


From 6a3caf72dbd43295f8bb0fcd5a491422b88e63ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:59 +0000
Subject: [PATCH 055/150] fix: control states given as strings in traced
 multi-controlled gates

---
 src/qrisp/core/gate_application_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 3be22a1..187cf0c 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -528,6 +528,8 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         qubits_0 = controls
         if isinstance(qubits_0, (QuantumVariable, DynamicQubitArray)) and method not in ["balauca", "khattar"]:
             method = "balauca"
+        if isinstance(ctrl_state, str) and method in ["balauca", "khattar"]:
+            ctrl_state = int(ctrl_state[::-1], 2)
         qubits_1 = [target]
     from qrisp.alg_primitives.mcx_algs import (
         balauca_dirty,
@@ -706,7 +708,7 @@ def mcz(qubits, method="auto", ctrl_state=-1, num_ancilla=1):
         if method == "auto":
             method = "balauca"
         if isinstance(ctrl_state, str):
-            ctrl_state = int(ctrl_state, 2)
+            ctrl_state = int(ctrl_state[::-1], 2)
         return jasp_mcz_inner(qubits, method=method, ctrl_state=ctrl_state)
 
     if method in ["gray", "auto"]:
@@ -789,7 +791,7 @@ def mcp(phi, qubits, method="auto", ctrl_state=-1):
         if method == "auto":
             method = "balauca"
         if isinstance(ctrl_state, str):
-            ctrl_state = int(ctrl_state, 2)
+            ctrl_state = int(ctrl_state[::-1], 2)
 
     if method == "gray" or method == "gray_pt":
         if ctrl_state[-1] == "0":
-- 
2.43.0


From 8cda5ce88f76bcf39401e64155ae38cbd27d889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:43 +0000
Subject: [PATCH 056/150] fix: traced multi-controlled gates with few qubits

---
 src/qrisp/alg_primitives/mcx_algs/balauca.py | 64 +++++++++---------
 src/qrisp/alg_primitives/mcx_algs/khattar.py | 71 ++++++++++++++------
 src/qrisp/core/gate_application_functions.py | 20 +++---
 3 files changed, 97 insertions(+), 58 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/balauca.py b/src/qrisp/alg_primitives/mcx_algs/balauca.py
index 9e908c9..050ad1d 100644
--- a/src/qrisp/alg_primitives/mcx_algs/balauca.py
+++ b/src/qrisp/alg_primitives/mcx_algs/balauca.py
@@ -491,20 +491,22 @@ def jasp_balauca_mcx(ctrls, target, ctrl_state):
         with control(N == 1):
             cx(ctrls[0], target[0])
 
-        with control(N == 2):
-            mcx([ctrls[0], ctrls[1]], target[0])
-
-        with control(N > 2):
-            balauca_anc = QuantumVariable(N - 2 + N % 2)
-            with conjugate(jasp_balauca_helper)(ctrls, balauca_anc):
-                mcx(
-                    [
-                        balauca_anc[balauca_anc.size - 1],
-                        balauca_anc[balauca_anc.size - 2],
-                    ],
-                    target[0],
-                )
-            balauca_anc.delete()
+        # A list with a single element contains no second control to address
+        if not (isinstance(ctrls, list) and N == 1):
+            with control(N == 2):
+                mcx([ctrls[0], ctrls[1]], target[0])
+
+            with control(N > 2):
+                balauca_anc = QuantumVariable(N - 2 + N % 2)
+                with conjugate(jasp_balauca_helper)(ctrls, balauca_anc):
+                    mcx(
+                        [
+                            balauca_anc[balauca_anc.size - 1],
+                            balauca_anc[balauca_anc.size - 2],
+                        ],
+                        target[0],
+                    )
+                balauca_anc.delete()
 
 
 @qache
@@ -522,23 +524,25 @@ def jasp_balauca_mcp(phi, ctrls, ctrl_state):
         with control(N == 1):
             p(phi, ctrls[0])
 
-        with control(N == 2):
-            with conjugate(mcx)([ctrls[0], ctrls[1]], target[0], method="gray_pt"):
-                p(phi, target[0])
-
-        with control(N > 2):
-            balauca_anc = QuantumVariable(N + N % 2 - 1)
-            with conjugate(jasp_balauca_helper)(ctrls, balauca_anc):
-                with conjugate(mcx)(
-                    [
-                        balauca_anc[balauca_anc.size - 1],
-                        balauca_anc[balauca_anc.size - 2],
-                    ],
-                    target[0],
-                    method="gray_pt",
-                ):
+        # A list with a single element contains no second control to address
+        if not (isinstance(ctrls, list) and N == 1):
+            with control(N == 2):
+                with conjugate(mcx)([ctrls[0], ctrls[1]], target[0], method="gray_pt"):
                     p(phi, target[0])
-            balauca_anc.delete()
+
+            with control(N > 2):
+                balauca_anc = QuantumVariable(N + N % 2 - 1)
+                with conjugate(jasp_balauca_helper)(ctrls, balauca_anc):
+                    with conjugate(mcx)(
+                        [
+                            balauca_anc[balauca_anc.size - 1],
+                            balauca_anc[balauca_anc.size - 2],
+                        ],
+                        target[0],
+                        method="gray_pt",
+                    ):
+                        p(phi, target[0])
+                balauca_anc.delete()
 
     target.delete()
 
diff --git a/src/qrisp/alg_primitives/mcx_algs/khattar.py b/src/qrisp/alg_primitives/mcx_algs/khattar.py
index c978bc2..075d1ad 100644
--- a/src/qrisp/alg_primitives/mcx_algs/khattar.py
+++ b/src/qrisp/alg_primitives/mcx_algs/khattar.py
@@ -241,33 +241,64 @@ def khattar_mcp(phi, ctrls, ctrl_state):
     target = QuantumFloat(1)
 
     with conjugate(ctrl_state_conjugator)(ctrls, ctrl_state):
-        with control(N == 1):
-            p(phi, ctrls[0])
+        if isinstance(ctrls, list):
+            if N == 1:
+                p(phi, ctrls[0])
 
-        with control(N == 2):
-            with conjugate(mcx)([ctrls[0], ctrls[1]], target[0], method="gray_pt"):
-                p(phi, target[0])
+            if N == 2:
+                with conjugate(mcx)([ctrls[0], ctrls[1]], target[0], method="gray_pt"):
+                    p(phi, target[0])
 
-        with control(N == 3):
-            if check_for_tracing_mode():
-                gidney_CCCX(ctrls, target)
+            if N == 3:
+                if check_for_tracing_mode():
+                    gidney_CCCX(ctrls, target)
 
-                p(phi, target[0])
+                    p(phi, target[0])
 
-                gidney_CCCX(ctrls, target)
-            else:
-                with conjugate(mcx)(ctrls, target[0], method="balauca"):
+                    gidney_CCCX(ctrls, target)
+                else:
+                    with conjugate(mcx)(ctrls, target[0], method="balauca"):
+                        p(phi, target[0])
+
+            if N == 4:
+                with conjugate(cca_4ctrls)(ctrls, target):
                     p(phi, target[0])
 
-        with control(N == 4):
-            with conjugate(cca_4ctrls)(ctrls, target):
-                p(phi, target[0])
+            if N > 4:
+                khattar_anc = QuantumFloat(1)
+                with conjugate(cca_mcx)(ctrls, target, khattar_anc):
+                    with conjugate(mcx)([khattar_anc[0], ctrls[0]], target[0]):
+                        p(phi, target[0])
+                khattar_anc.delete()
+
+        else:
+            with control(N == 1):
+                p(phi, ctrls[0])
 
-        with control(N > 4):
-            khattar_anc = QuantumFloat(1)
-            with conjugate(cca_mcx)(ctrls, target, khattar_anc):
-                with conjugate(mcx)([khattar_anc[0], ctrls[0]], target[0]):
+            with control(N == 2):
+                with conjugate(mcx)([ctrls[0], ctrls[1]], target[0], method="gray_pt"):
+                    p(phi, target[0])
+
+            with control(N == 3):
+                if check_for_tracing_mode():
+                    gidney_CCCX(ctrls, target)
+
+                    p(phi, target[0])
+
+                    gidney_CCCX(ctrls, target)
+                else:
+                    with conjugate(mcx)(ctrls, target[0], method="balauca"):
+                        p(phi, target[0])
+
+            with control(N == 4):
+                with conjugate(cca_4ctrls)(ctrls, target):
                     p(phi, target[0])
-            khattar_anc.delete()
+
+            with control(N > 4):
+                khattar_anc = QuantumFloat(1)
+                with conjugate(cca_mcx)(ctrls, target, khattar_anc):
+                    with conjugate(mcx)([khattar_anc[0], ctrls[0]], target[0]):
+                        p(phi, target[0])
+                khattar_anc.delete()
 
     target.delete()
diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 187cf0c..3358a1f 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -684,14 +684,18 @@ def mcz(qubits, method="auto", ctrl_state=-1, num_ancilla=1):
         with control((ctrl_state >> (n - 1)) & 1 == 0):
             x(qubits[-1])
 
-        h(qubits[-1])
-        mcx(
-            qubits[:-1],
-            qubits[-1],
-            method=method,
-            ctrl_state=ctrl_state & ((1 << (n - 1)) - 1),
-        )
-        h(qubits[-1])
+        with control(n == 1):
+            z(qubits[-1])
+
+        if not (isinstance(qubits, list) and n == 1):
+            h(qubits[-1])
+            mcx(
+                qubits[:-1],
+                qubits[-1],
+                method=method,
+                ctrl_state=ctrl_state & ((1 << (n - 1)) - 1),
+            )
+            h(qubits[-1])
 
         with control((ctrl_state >> (n - 1)) & 1 == 0):
             x(qubits[-1])
-- 
2.43.0


From bb95974831ba36ec5f03dfb16d0399ebb7ec3148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:02 +0000
Subject: [PATCH 057/150] fix: control state of traced logical ANDs

---
 src/qrisp/core/gate_application_functions.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 3358a1f..894a58e 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -540,6 +540,10 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         yong_mcx,
     )
 
+    def get_flipped_ctrls():
+        state = ctrl_state if isinstance(ctrl_state, str) else bin_rep(ctrl_state % 4, 2)[::-1]
+        return [qubits_0[i] for i in range(2) if state[i] == "0"]
+
     if method in ["gray", "gray_pt", "gray_pt_inv"]:
         append_operation(
             std_ops.MCXGate(len(qubits_0), ctrl_state, method=method),
@@ -550,7 +554,12 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
             raise Exception(f"Tried to call Gidney logical AND with {len(qubits_0)} controls instead of two")
 
         if check_for_tracing_mode():
+            flipped_ctrls = get_flipped_ctrls()
+            for qb in flipped_ctrls:
+                x(qb)
             jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
+            for qb in flipped_ctrls:
+                x(qb)
         else:
             append_operation(
                 GidneyLogicalAND(ctrl_state=ctrl_state),
@@ -562,8 +571,13 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
             raise Exception(f"Tried to call Gidney logical AND with {len(qubits_0)} controls instead of two")
 
         if check_for_tracing_mode():
+            flipped_ctrls = get_flipped_ctrls()
+            for qb in flipped_ctrls:
+                x(qb)
             with invert():
                 jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
+            for qb in flipped_ctrls:
+                x(qb)
         else:
             append_operation(
                 GidneyLogicalAND(ctrl_state=ctrl_state, inv=True),
-- 
2.43.0


From e69dacf9dcd258aaf5b050a6a834f34a21b12e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:50 +0000
Subject: [PATCH 058/150] fix: control of measurement based logical ANDs in
 traced programs

---
 src/qrisp/alg_primitives/mcx_algs/gidney.py  | 12 ++++++++----
 src/qrisp/alg_primitives/mcx_algs/khattar.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/gidney.py b/src/qrisp/alg_primitives/mcx_algs/gidney.py
index 4f0fc01..9969118 100644
--- a/src/qrisp/alg_primitives/mcx_algs/gidney.py
+++ b/src/qrisp/alg_primitives/mcx_algs/gidney.py
@@ -77,8 +77,8 @@ class GidneyLogicalAND(Operation):
         return res
 
 
-from qrisp import custom_inversion
-from qrisp.core import cx, cz, h, measure, s, t, t_dg, x
+from qrisp import custom_control, custom_inversion
+from qrisp.core import cx, cz, h, mcx, measure, s, t, t_dg, x
 from qrisp.environments import control
 
 
@@ -109,8 +109,12 @@ def gidney_mcx_inv_impl(a, b, c):
 
 
 @custom_inversion
-def jasp_gidney_mcx(a, b, c, inv=False):
-    if not inv:
+@custom_control
+def jasp_gidney_mcx(a, b, c, inv=False, ctrl=None):
+    if ctrl is not None:
+        # The measurement based uncomputation can not be controlled
+        mcx([a, b, ctrl], c)
+    elif not inv:
         gidney_mcx_impl(a, b, c)
     else:
         gidney_mcx_inv_impl(a, b, c)
diff --git a/src/qrisp/alg_primitives/mcx_algs/khattar.py b/src/qrisp/alg_primitives/mcx_algs/khattar.py
index 075d1ad..60de2ab 100644
--- a/src/qrisp/alg_primitives/mcx_algs/khattar.py
+++ b/src/qrisp/alg_primitives/mcx_algs/khattar.py
@@ -32,7 +32,7 @@ from qrisp.core.gate_application_functions import (
     t_dg,
     x,
 )
-from qrisp.environments import conjugate, control, custom_inversion, invert
+from qrisp.environments import conjugate, control, custom_control, custom_inversion, invert
 from qrisp.jasp import check_for_tracing_mode, jlen, jrange, qache
 from qrisp.qtypes import QuantumFloat
 
@@ -58,7 +58,8 @@ def ctrl_state_conjugator(ctrls, ctrl_state):
 
 
 @custom_inversion
-def gidney_CCCX(ctrls, target, inv=False):
+@custom_control
+def gidney_CCCX(ctrls, target, inv=False, ctrl=None):
     """Implements a CCCZ gate using the Gidney
     method described in https://arxiv.org/abs/2106.11513 using only 6 T gates.
 
@@ -67,6 +68,11 @@ def gidney_CCCX(ctrls, target, inv=False):
         target (list): A list containing the target qubit. It is expected to contain one qubit.
 
     """
+    if ctrl is not None:
+        # The measurement based implementation can not be controlled
+        mcx([ctrls[0], ctrls[1], ctrls[2], ctrl], target[0])
+        return
+
     h(target[0])
 
     gidney_anc = QuantumFloat(1)
-- 
2.43.0


From 50caa668fe8dcb4220c10a97dcd1a45a70e8f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:13 +0000
Subject: [PATCH 059/150] fix: bit order of integer control states of traced
 functions

---
 src/qrisp/jasp/jasp_expression/centerclass.py       | 2 +-
 src/qrisp/jasp/jasp_expression/control_transform.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/jasp/jasp_expression/centerclass.py b/src/qrisp/jasp/jasp_expression/centerclass.py
index 1ea6066..87da626 100644
--- a/src/qrisp/jasp/jasp_expression/centerclass.py
+++ b/src/qrisp/jasp/jasp_expression/centerclass.py
@@ -347,7 +347,7 @@ class Jaspr(ClosedJaxpr):
             if ctrl_state < 0:
                 ctrl_state += 2**num_ctrl
 
-            ctrl_state = bin(ctrl_state)[2:].zfill(num_ctrl)
+            ctrl_state = bin(ctrl_state)[2:].zfill(num_ctrl)[::-1]
         else:
             ctrl_state = str(ctrl_state)
 
diff --git a/src/qrisp/jasp/jasp_expression/control_transform.py b/src/qrisp/jasp/jasp_expression/control_transform.py
index ca083b0..fac3864 100644
--- a/src/qrisp/jasp/jasp_expression/control_transform.py
+++ b/src/qrisp/jasp/jasp_expression/control_transform.py
@@ -60,7 +60,7 @@ class ControlledJaspr(Jaspr):
             if ctrl_state < 0:
                 ctrl_state += 2**num_ctrl
 
-            ctrl_state = bin(ctrl_state)[2:].zfill(num_ctrl)
+            ctrl_state = bin(ctrl_state)[2:].zfill(num_ctrl)[::-1]
         else:
             ctrl_state = str(ctrl_state)
 
-- 
2.43.0


From 77c987ce7d02d5773c7120e3b66a04fd672a491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:02 +0000
Subject: [PATCH 060/150] fix: gate counts of switches with more than two
 branches

---
 src/qrisp/jasp/interpreter_tools/interpreters/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/utilities.py b/src/qrisp/jasp/interpreter_tools/interpreters/utilities.py
index 970e25b..cc503d6 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/utilities.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/utilities.py
@@ -90,8 +90,8 @@ def get_quantum_operations(jaspr: Jaspr) -> List[str]:
                 quantum_operations.add(eqn.params["gate"].name)
 
         if eqn.primitive.name == "cond":
-            quantum_operations.update(get_quantum_operations(eqn.params["branches"][0].jaxpr))
-            quantum_operations.update(get_quantum_operations(eqn.params["branches"][1].jaxpr))
+            for branch in eqn.params["branches"]:
+                quantum_operations.update(get_quantum_operations(branch.jaxpr))
             continue
 
         # Handle call primitives (like cond/pjit)
-- 
2.43.0


From f5035ac105ba812d374e26a119b79a5b6d99e8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:02 +0000
Subject: [PATCH 061/150] fix: size of fused and sliced registers in resource
 estimates

---
 .../interpreters/count_ops_metric.py             | 16 +++++++++++++---
 .../interpreters/num_qubits_metric.py            | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py b/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
index 588d885..5eff9d2 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
@@ -138,14 +138,24 @@ class CountOpsMetric(BaseMetric):
     def handle_fuse(self, invalues, eqn, context_dic):
 
         # The size of the fused qubit array is the size of the two added.
-        return invalues[0] + invalues[1]
+        # (single qubits contribute one qubit each)
+        sizes = [
+            size if isinstance(var.aval, AbstractQubitArray) else 1
+            for var, size in zip(eqn.invars, invalues)
+        ]
+        return sizes[0] + sizes[1]
 
     def handle_slice(self, invalues, eqn, context_dic):
 
         # For the slice operation, we need to make sure, we don't go out
         # of bounds.
-        start = jnp.max(jnp.array([invalues[1], 0]))
-        stop = jnp.min(jnp.array([invalues[2], invalues[0]]))
+        size, start, stop = invalues
+
+        start = start + (start < 0) * size
+        stop = stop + (stop < 0) * size
+
+        start = jnp.maximum(start, 0)
+        stop = jnp.maximum(jnp.minimum(stop, size), start)
         return stop - start
 
     def handle_quantum_gate(self, invalues, eqn, context_dic):
diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py b/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
index f2a9134..be4ae64 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
@@ -178,12 +178,22 @@ class NumQubitsMetric(BaseMetric):
 
         # Associate the following in context_dic:
         # QubitArray -> size1 + size2
-        return invalues[0] + invalues[1]
+        # (single qubits contribute one qubit each)
+        sizes = [
+            size if isinstance(var.aval, AbstractQubitArray) else 1
+            for var, size in zip(eqn.invars, invalues)
+        ]
+        return sizes[0] + sizes[1]
 
     def handle_slice(self, invalues, eqn, context_dic):
 
-        start = jnp.max(jnp.array([invalues[1], 0]))
-        stop = jnp.min(jnp.array([invalues[2], invalues[0]]))
+        size, start, stop = invalues
+
+        start = start + (start < 0) * size
+        stop = stop + (stop < 0) * size
+
+        start = jnp.maximum(start, 0)
+        stop = jnp.maximum(jnp.minimum(stop, size), start)
 
         # Associate the following in context_dic:
         # QubitArray -> size
-- 
2.43.0


From 4e694bb58f4a776d4e89d039b332ef9b974df95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:02 +0000
Subject: [PATCH 062/150] fix: negative indices and empty registers in the
 depth estimate

---
 .../jasp/interpreter_tools/interpreters/depth_metric.py    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/depth_metric.py b/src/qrisp/jasp/interpreter_tools/interpreters/depth_metric.py
index 89f683b..a709ea6 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/depth_metric.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/depth_metric.py
@@ -195,7 +195,12 @@ class DepthMetric(BaseMetric):
 
         qubit_table_handle, qubit_index = invalues
 
-        qubit_ids_table, _ = qubit_table_handle
+        qubit_ids_table, size = qubit_table_handle
+        qubit_index = qubit_index + (qubit_index < 0) * size
+
+        # Indexing an empty array can only happen in a branch that is not taken
+        if qubit_ids_table.shape[0] == 0:
+            return jnp.int64(0)
 
         # Associate the following in context_dic:
         # Qubit -> qubit_id (integer tracer/array scalar)
-- 
2.43.0


From 71af8eab026ac86fcc3ac24fc0e4e50b24cfe2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:30 +0000
Subject: [PATCH 063/150] fix: constant qubit operators with complex
 coefficients

---
 src/qrisp/operators/qubit/qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index c2c34cf..a015314 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -707,7 +707,7 @@ class QubitOperator(Hamiltonian):
                 factor_amount = max(participating_indices) + 1
             else:
                 res = 1
-                M = sp.csr_matrix((1, 1))
+                M = sp.csr_matrix((1, 1), dtype=complex)
                 for coeff in coeffs:
                     res *= coeff
                 if coeffs:
@@ -780,7 +780,7 @@ class QubitOperator(Hamiltonian):
         res = 0
         for term, coeff in self.terms_dict.items():
             res += coeff * term.to_pauli()
-        if isinstance(res, (float, int)):
+        if not isinstance(res, QubitOperator):
             return QubitOperator({QubitTerm({}): res})
         return res
 
-- 
2.43.0


From 84c7eaaaa5dbd56fbbfe14d87ded9e01ac5ab37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:47 +0000
Subject: [PATCH 064/150] fix: ground state energy of constant and single qubit
 operators

---
 src/qrisp/operators/qubit/qubit_operator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index a015314..7e04694 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -914,6 +914,11 @@ class QubitOperator(Hamiltonian):
             return 0
 
         M = self.hermitize().to_sparse_matrix()
+
+        # The sparse eigensolver requires at least two qubits
+        if M.shape[0] <= 2:
+            return np.linalg.eigvalsh(M.toarray())[0]
+
         # Compute the smallest eigenvalue
         eigenvalues, _ = eigsh(M, k=1, which="SA")  # 'SA' stands for smallest algebraic
         E = eigenvalues[0]
-- 
2.43.0


From 33f3dab0fb7e27bb34e0a64d6b1dab8930ae5f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:47 +0000
Subject: [PATCH 065/150] fix: signs in the change of basis of commuting
 operators

---
 src/qrisp/operators/qubit/qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 7e04694..a300ec6 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1236,10 +1236,10 @@ class QubitOperator(Hamiltonian):
                 # No factor (-1) occurs if H S^{-1} P S H is applied (i.e., H and S) for any P in {X,Y,Z}
 
                 s_vector = np.zeros(m, dtype=int)
-                s_vector[s_list] = 1
+                s_vector[perm[s_list]] = 1
                 h_vector = np.zeros(m, dtype=int)
                 h_vector[h_list] = 1
-                sh_vector = s_vector[perm] + h_vector % 2
+                sh_vector = (s_vector + h_vector) % 2
                 sign_vector = sh_vector @ (x_matrix[qb_indices] * z_matrix[qb_indices]) % 2
 
                 # Lower triangular part of A
-- 
2.43.0


From 40b60378f5e373c3a526d1a6832e737b295f0731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:47 +0000
Subject: [PATCH 066/150] fix: complex coefficients of ladder operators in
 measurements and simulation

---
 src/qrisp/operators/qubit/qubit_operator.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index a300ec6..77e9e7e 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -889,11 +889,25 @@ class QubitOperator(Hamiltonian):
                 continue
 
             if term.adjoint() in new_terms_dict:
-                new_terms_dict[term.adjoint()] += coeff
+                new_terms_dict[term.adjoint()] += np.conjugate(coeff)
             else:
                 new_terms_dict[term] = coeff
 
-        return QubitOperator(new_terms_dict).apply_threshold(0)
+        # Conjugate pairs T + T^dagger can be represented by a ladder term with a
+        # real coefficient. The part proportional to i*(T - T^dagger) can not, and is
+        # therefore expressed by Pauli terms.
+        imaginary_part = 0
+        for term, coeff in list(new_terms_dict.items()):
+            if term.adjoint() != term and np.imag(coeff) != 0:
+                new_terms_dict[term] = np.real(coeff)
+                difference = QubitOperator({term: 0.5j * np.imag(coeff)})
+                imaginary_part = difference + difference.adjoint() + imaginary_part
+
+        result = QubitOperator(new_terms_dict)
+        if isinstance(imaginary_part, QubitOperator):
+            result = result + imaginary_part.to_pauli()
+
+        return result.apply_threshold(0)
 
     def ground_state_energy(self):
         """Calculates the ground state energy (i.e., the minimum eigenvalue) of the operator classically.
-- 
2.43.0


From db76e7754fe9409eb3876f3b19bb5ea6fb3060e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:42 +0000
Subject: [PATCH 067/150] fix: repeated evolution of ladder terms in the
 commuting Trotterization

---
 src/qrisp/operators/qubit/qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 77e9e7e..2184385 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1842,7 +1842,7 @@ class QubitOperator(Hamiltonian):
                 for com_group in commuting_groups:
                     qw_groups = com_group.group_up(lambda a, b: a.ladders_agree(b))
                     for qw_group in qw_groups:
-                        with conjugate(com_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
+                        with conjugate(qw_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
                             intersect_groups = diagonal_operator.group_up(lambda a, b: not a.intersect(b))
                             for intersect_group in intersect_groups:
                                 for term, coeff in intersect_group.terms_dict.items():
-- 
2.43.0


From c1930c4504c9206ccfc616785685a5b8ac409995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:43 +0000
Subject: [PATCH 068/150] fix: deletion of ancillae in controlled simulation of
 qubit terms

---
 src/qrisp/operators/qubit/qubit_term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_term.py b/src/qrisp/operators/qubit/qubit_term.py
index 32e1571..9c5e08f 100644
--- a/src/qrisp/operators/qubit/qubit_term.py
+++ b/src/qrisp/operators/qubit/qubit_term.py
@@ -469,7 +469,7 @@ class QubitTerm:
                 else:
                     rz(coeff * 2, qv[anchor_index])
 
-        if len(projector_indices) >= 2:
+        if len(projector_qubits) >= 2:
             # Delete ancilla
             hs_anc_qbl.delete()
             balauca_ancillae.delete()
-- 
2.43.0


From 1343f12d43ea1659ba831d5c4ab718926667b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:43 +0000
Subject: [PATCH 069/150] fix: expectation values of operators with constant
 groups

---
 src/qrisp/operators/qubit/jasp_measurement.py | 3 ++-
 src/qrisp/operators/qubit/measurement.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/jasp_measurement.py b/src/qrisp/operators/qubit/jasp_measurement.py
index c9a71bd..53bad43 100644
--- a/src/qrisp/operators/qubit/jasp_measurement.py
+++ b/src/qrisp/operators/qubit/jasp_measurement.py
@@ -105,7 +105,8 @@ def get_jasp_measurement(
             group.change_of_basis(qv, method=diagonalisation_method)
             return qv
 
-        shots = int(shots_list[index] / precision**2)
+        # Constant groups have no variance but still require a valid number of shots
+        shots = max(1, int(shots_list[index] / precision**2))
         res = sample(new_state_prep, shots=shots)(state_args)
 
         samples.append(jnp.int64(res))
diff --git a/src/qrisp/operators/qubit/measurement.py b/src/qrisp/operators/qubit/measurement.py
index 98fc7b6..cd50cfa 100644
--- a/src/qrisp/operators/qubit/measurement.py
+++ b/src/qrisp/operators/qubit/measurement.py
@@ -198,7 +198,8 @@ class QubitOperatorMeasurement:
             self.change_of_basis_gates,
             self.shots_list,
         ):
-            shots = int(shots_base / precision**2)
+            # Constant groups have no variance but still require a valid number of shots
+            shots = max(1, int(shots_base / precision**2))
 
             qubits = [qubit_list[j] for j in range(gate.num_qubits)]
 
-- 
2.43.0


From ddc2cfdb064c881fe816159e321f96c491ab168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:35 +0000
Subject: [PATCH 070/150] fix: grouping of projectors and Paulis in the
 commuting diagonalisation

---
 src/qrisp/operators/qubit/jasp_measurement.py |  5 +++-
 src/qrisp/operators/qubit/measurement.py      |  5 +++-
 src/qrisp/operators/qubit/qubit_operator.py   |  5 +++-
 src/qrisp/operators/qubit/qubit_term.py       | 24 +++++++++++++++++++
 4 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/operators/qubit/jasp_measurement.py b/src/qrisp/operators/qubit/jasp_measurement.py
index 53bad43..5130160 100644
--- a/src/qrisp/operators/qubit/jasp_measurement.py
+++ b/src/qrisp/operators/qubit/jasp_measurement.py
@@ -72,7 +72,10 @@ def get_jasp_measurement(
             groups.extend(group.group_up(lambda a, b: a.ladders_agree(b) or not a.ladders_intersect(b)))
 
     elif diagonalisation_method == "commuting":
-        temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b))
+        # The change of basis for commuting Paulis doesn't preserve the basis of projectors
+        temp_groups = hamiltonian.group_up(
+            lambda a, b: a.commute_pauli(b) and not a.projectors_intersect_paulis(b)
+        )
         groups = []
         # In order for the change of basis function (below) to work properly,
         # the ladder terms either need to completely agree or completely disagree
diff --git a/src/qrisp/operators/qubit/measurement.py b/src/qrisp/operators/qubit/measurement.py
index cd50cfa..081552e 100644
--- a/src/qrisp/operators/qubit/measurement.py
+++ b/src/qrisp/operators/qubit/measurement.py
@@ -158,7 +158,10 @@ class QubitOperatorMeasurement:
                 self.groups.extend(group.group_up(lambda a, b: a.ladders_agree(b) or not a.ladders_intersect(b)))
 
         elif diagonalisation_method == "commuting":
-            temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b))
+            # The change of basis for commuting Paulis doesn't preserve the basis of projectors
+            temp_groups = hamiltonian.group_up(
+                lambda a, b: a.commute_pauli(b) and not a.projectors_intersect_paulis(b)
+            )
             self.groups = []
             # In order for the change of basis function (below) to work properly,
             # the ladder terms either need to completely agree or completely disagree
diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 2184385..44fd5df 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1840,7 +1840,10 @@ class QubitOperator(Hamiltonian):
 
             def trotter_step(qarg, t, steps):
                 for com_group in commuting_groups:
-                    qw_groups = com_group.group_up(lambda a, b: a.ladders_agree(b))
+                    # The change of basis for commuting Paulis doesn't preserve the basis of projectors
+                    qw_groups = com_group.group_up(
+                        lambda a, b: a.ladders_agree(b) and not a.projectors_intersect_paulis(b)
+                    )
                     for qw_group in qw_groups:
                         with conjugate(qw_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
                             intersect_groups = diagonal_operator.group_up(lambda a, b: not a.intersect(b))
diff --git a/src/qrisp/operators/qubit/qubit_term.py b/src/qrisp/operators/qubit/qubit_term.py
index 9c5e08f..d78c957 100644
--- a/src/qrisp/operators/qubit/qubit_term.py
+++ b/src/qrisp/operators/qubit/qubit_term.py
@@ -718,6 +718,30 @@ class QubitTerm:
         """Checks if two QubitTerms operate on the same qubit."""
         return len(set(self.factor_dict.keys()).intersection(other.factor_dict.keys())) != 0
 
+    def projectors_intersect_paulis(self, other):
+        """Checks if a projector (P0, P1) of one term acts on the same qubit as a Pauli
+        factor of the other one.
+
+        Parameters
+        ----------
+        other : QubitTerm
+            The term to compare against.
+
+        Returns
+        -------
+        bool
+
+        """
+        a = self.factor_dict
+        b = other.factor_dict
+        projectors = ["P0", "P1"]
+        paulis = ["X", "Y", "Z"]
+
+        for key in set(a.keys()).intersection(b.keys()):
+            if (a[key] in projectors and b[key] in paulis) or (a[key] in paulis and b[key] in projectors):
+                return True
+        return False
+
     def ladders_agree(self, other):
         """Checks if the ladder operators of two QubitTerms operate on the same set of qubits.
 
-- 
2.43.0


From 8235089dd3fd4e6ae160bc0ce74c250a16a25b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:43 +0000
Subject: [PATCH 071/150] fix: in-place multiplication of fermionic operators

---
 src/qrisp/operators/fermionic/fermionic_operator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index ec15357..db89652 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -500,6 +500,7 @@ class FermionicOperator(Hamiltonian):
                 res_terms_dict[curr_ladder_term] = res_terms_dict.get(curr_ladder_term, 0) + coeff1 * coeff2
 
         self.terms_dict = res_terms_dict
+        return self
 
     #
     # Miscellaneous
-- 
2.43.0


From 551a47148fd87017495b780031e65c03d3f309ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:43 +0000
Subject: [PATCH 072/150] fix: reduction of fermionic terms with three ladder
 operators of one index

---
 src/qrisp/operators/fermionic/fermionic_term.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_term.py b/src/qrisp/operators/fermionic/fermionic_term.py
index dcc0b1d..4d1e0f3 100644
--- a/src/qrisp/operators/fermionic/fermionic_term.py
+++ b/src/qrisp/operators/fermionic/fermionic_term.py
@@ -127,9 +127,6 @@ class FermionicTerm:
                 if ladder_list[i][1] == ladder_list[i + 1][1]:
                     flip_sign = 0
                     break
-                if i > 1 and ladder_list[i][0] == ladder_list[i - 1][0]:
-                    flip_sign = 0
-                    break
 
         return FermionicTerm(ladder_list), flip_sign
 
-- 
2.43.0


From bd1f3d3f8f11facc2994fe609c45b08b7ee0640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:43 +0000
Subject: [PATCH 073/150] fix: comparison of fermionic operators in different
 order

---
 src/qrisp/operators/fermionic/fermionic_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index db89652..52cab40 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -269,7 +269,7 @@ class FermionicOperator(Hamiltonian):
             return False
 
         for term, coeff in reduced_self.terms_dict.items():
-            if term not in other.terms_dict:
+            if term not in reduced_other.terms_dict:
                 daggered_sorted_term, flip_sign = term.dagger().sort()
                 if daggered_sorted_term not in reduced_other.terms_dict:
                     return False
-- 
2.43.0


From 5b5a9e94fab41f4b9336d9fa313a98f593f81e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:59 +0000
Subject: [PATCH 074/150] fix: complex coefficients of fermionic operators in
 reduction and simulation

---
 .../operators/fermionic/fermionic_operator.py |  4 ++-
 .../operators/fermionic/trotterization.py     | 32 ++++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index 52cab40..79f002a 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -148,12 +148,14 @@ class FermionicOperator(Hamiltonian):
                 if daggered_sorted_term in new_terms_dict:
                     sorted_term = daggered_sorted_term
                     flip_sign = daggered_flip_sign
+                    # The coefficient of the daggered term is the complex conjugate.
+                    coeff = coeff.conjugate()
 
             # Compute the new coefficient.
             new_terms_dict[sorted_term] = flip_sign * coeff + new_terms_dict.get(sorted_term, 0)
 
         for term, coeff in list(new_terms_dict.items()):
-            if isinstance(coeff, (int, float)):
+            if isinstance(coeff, (int, float, complex)):
                 if coeff == 0:
                     del new_terms_dict[term]
 
diff --git a/src/qrisp/operators/fermionic/trotterization.py b/src/qrisp/operators/fermionic/trotterization.py
index e50f3e9..9aac439 100644
--- a/src/qrisp/operators/fermionic/trotterization.py
+++ b/src/qrisp/operators/fermionic/trotterization.py
@@ -15,7 +15,9 @@
 ********************************************************************************
 """
 
-from qrisp import IterationEnvironment, conjugate, merge
+import numpy as np
+
+from qrisp import IterationEnvironment, conjugate, merge, p
 from qrisp.jasp import check_for_tracing_mode, jrange
 from qrisp.operators.hamiltonian_tools import group_up_iterable
 
@@ -109,10 +111,30 @@ def fermionic_trotterization(H, forward_evolution=True):
                             if factor == "Z":
                                 raise Exception("Fermionic matching failed: Z Operator found")
 
-                    qubit_term.simulate(
-                        -coeff * t / steps * qubit_operator.terms_dict[qubit_term] * (-1) ** int(forward_evolution),
-                        new_qarg,
-                    )
+                    coeff = coeff * qubit_operator.terms_dict[qubit_term]
+                    ladder_indices = [i for i, factor in qubit_term.factor_dict.items() if factor in ["A", "C"]]
+
+                    if isinstance(coeff, complex) and (coeff.imag == 0 or len(ladder_indices) == 0):
+                        # The Hermitian part of a term without ladder operators
+                        # only contains the real part of the coefficient
+                        coeff = coeff.real
+
+                    if not isinstance(coeff, complex):
+                        qubit_term.simulate(
+                            -coeff * t / steps * (-1) ** int(forward_evolution),
+                            new_qarg,
+                        )
+                    else:
+                        # Phase gates on a ladder operator multiply the term with
+                        # the phase of the coefficient
+                        phase = np.angle(coeff)
+                        if qubit_term.factor_dict[ladder_indices[0]] == "C":
+                            phase = -phase
+                        with conjugate(p)(phase, new_qarg[ladder_indices[0]]):
+                            qubit_term.simulate(
+                                -abs(coeff) * t / steps * (-1) ** int(forward_evolution),
+                                new_qarg,
+                            )
 
     def U(qarg, t=1, steps=1, iter=1):
         if check_for_tracing_mode():
-- 
2.43.0


From 030aa1dd9b12d745816bd1daf6928c35fd02bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:42 +0000
Subject: [PATCH 075/150] fix: Pauli form of adjoint operators with integer
 constants

---
 src/qrisp/operators/qubit/qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 44fd5df..04fe498 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -862,7 +862,7 @@ class QubitOperator(Hamiltonian):
         """
         new_terms_dict = {}
         for term, coeff in self.terms_dict.items():
-            new_terms_dict[term.adjoint()] = np.conjugate(coeff)
+            new_terms_dict[term.adjoint()] = coeff.conjugate()
         return QubitOperator(new_terms_dict)
 
     def hermitize(self):
-- 
2.43.0


From 46cf08d8be637e1cee1df875ed5d30e7b7363ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:55 +0000
Subject: [PATCH 076/150] fix: phase of reflections on quantum arrays

---
 src/qrisp/alg_primitives/reflection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/reflection.py b/src/qrisp/alg_primitives/reflection.py
index 90adfb5..d6c6348 100644
--- a/src/qrisp/alg_primitives/reflection.py
+++ b/src/qrisp/alg_primitives/reflection.py
@@ -218,4 +218,4 @@ def reflection(
     else:
         inner_reflection(qubits, phase)
 
-    gphase(np.pi, qargs[0][0])
+    gphase(np.pi, qubits[0])
-- 
2.43.0


From 19773b0e85750e3ecc658d0218c20b3cab808a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:33 +0000
Subject: [PATCH 077/150] fix: execution of function arguments during the
 search for quantum sessions

---
 src/qrisp/core/session_merging_tools.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/core/session_merging_tools.py b/src/qrisp/core/session_merging_tools.py
index c8bf3a2..1d32440 100644
--- a/src/qrisp/core/session_merging_tools.py
+++ b/src/qrisp/core/session_merging_tools.py
@@ -365,11 +365,9 @@ def recursive_qs_search(input):
     elif isinstance(input, QuantumEnvironment):
         result = [input.env_qs]
     else:
-        try:
-            if isinstance(input(), QuantumSession):
-                result = [input()]
-        except TypeError:
-            pass
+        # Only weak references are resolved (functions must not be called)
+        if isinstance(input, weakref.ref) and isinstance(input(), QuantumSession):
+            result = [input()]
 
         try:
             if isinstance(input.qs(), QuantumSession):
-- 
2.43.0


From 5069b986c17a506e064de3d05ce2ff0749325e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:33 +0000
Subject: [PATCH 078/150] fix: residual phases of logic synthesis with several
 outputs

---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 5835e76..11bec9e 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -574,6 +574,9 @@ def gray_logic_synth(input_var, output_var, tt, phase_tolerant=False, lin_solve=
     input_var_dupl.qs.data = []
 
     if not phase_tolerant:
+        # The phase synthesis expects the phases in reversed bit order
+        n = tt.bit_amount
+        residual_phases = residual_phases.reshape(n * [2]).transpose().reshape(2**n)
         gray_phase_synth(input_var_dupl, residual_phases)
 
     qc.data.extend(input_var_dupl.qs.data)
-- 
2.43.0


From c8c1e58eda37e94cdfa894a4b024fc8291e959f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:02 +0000
Subject: [PATCH 079/150] fix: inverse phase tolerant logic synthesis

---
 src/qrisp/alg_primitives/logic_synthesis/truth_tables.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
index 41420ac..0227b13 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
@@ -187,12 +187,10 @@ class TruthTable:
             gray_logic_synth(input_var, output_var, self, phase_tolerant=True)
 
         elif method == "gray_pt_inv":
-            from qrisp.alg_primitives.logic_synthesis.gray_synthesis import (
-                gray_logic_synth,
+            input_var.qs.append(
+                self.gate_synth(method="gray_pt", inv=True),
+                list(input_var.reg) + list(output_var.reg),
             )
-            from qrisp.misc import quantum_invert
-
-            quantum_invert(gray_logic_synth, [input_var, output_var, self, True], input_var.qs)
 
         elif method == "pprm_pt":
             from qrisp.alg_primitives.logic_synthesis.pprm_synthesis import pprm
-- 
2.43.0


From a4a5533972d855ba34cc8e82066683e914d4fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:02 +0000
Subject: [PATCH 080/150] fix: logic synthesis of tables that do not depend on
 all inputs

---
 src/qrisp/alg_primitives/logic_synthesis/pprm_synthesis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/pprm_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/pprm_synthesis.py
index 15b28ea..3715ffa 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/pprm_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/pprm_synthesis.py
@@ -78,5 +78,9 @@ def pprm_synth(input_var, output_var, tt, qb_nr, phase_tolerant=False):
 
 @gate_wrap(is_qfree=True, permeability=[0])
 def pprm(input_var, output_var, tt, phase_tolerant=False):
+    # Make sure that the resulting gate covers all qubits
+    for input_qubit in input_var.reg:
+        input_var.qs.id(input_qubit)
+
     for column in range(tt.shape[1]):
         pprm_synth(input_var, output_var, tt, column, phase_tolerant)
-- 
2.43.0


From 8487ebc93bfaff36e6984f1d2b303975afe7355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:02 +0000
Subject: [PATCH 081/150] fix: quantum dictionaries with tuples as labels

---
 src/qrisp/core/quantum_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_dictionary.py b/src/qrisp/core/quantum_dictionary.py
index de153ae..c618c2d 100644
--- a/src/qrisp/core/quantum_dictionary.py
+++ b/src/qrisp/core/quantum_dictionary.py
@@ -237,7 +237,7 @@ class QuantumDictionary(dict):
             for i in range(len(quantum_key)):
                 qv = quantum_key[i]
 
-                if isinstance(k, tuple):
+                if len(quantum_key) > 1:
                     bin_string += bin_rep(qv.encoder(k[i]), qv.size)[::-1]
                 else:
                     bin_string += bin_rep(qv.encoder(k), qv.size)[::-1]
-- 
2.43.0


From dc9c2ee8c482bc8e535db604720ecb00025779e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:02 +0000
Subject: [PATCH 082/150] fix: modification of the branch list in quantum
 switches

---
 src/qrisp/alg_primitives/program_control/quantum_switch.py | 5 +++--
 src/qrisp/alg_primitives/program_control/switch_case.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/program_control/quantum_switch.py b/src/qrisp/alg_primitives/program_control/quantum_switch.py
index 690dedf..194b515 100644
--- a/src/qrisp/alg_primitives/program_control/quantum_switch.py
+++ b/src/qrisp/alg_primitives/program_control/quantum_switch.py
@@ -341,10 +341,11 @@ def _q_switch_q(index, branches, *operands, branch_amount=None, method="auto", i
         elif isinstance(branches, list):
             if len(branches) % 2 != 0:
 
-                def identity(_):
+                def identity(*_):
                     pass
 
-                branches.append(identity)
+                # Don't modify the list of the caller
+                branches = branches + [identity]
 
             if check_for_tracing_mode():
 
diff --git a/src/qrisp/alg_primitives/program_control/switch_case.py b/src/qrisp/alg_primitives/program_control/switch_case.py
index aecef1b..e46322c 100644
--- a/src/qrisp/alg_primitives/program_control/switch_case.py
+++ b/src/qrisp/alg_primitives/program_control/switch_case.py
@@ -370,10 +370,11 @@ def qswitch(operand, case, case_function, method="auto", case_amount=None, inv=F
         elif isinstance(case_function, list):
             if len(case_function) % 2 != 0:
 
-                def identity(_):
+                def identity(*_):
                     pass
 
-                case_function.append(identity)
+                # Don't modify the list of the caller
+                case_function = case_function + [identity]
 
             if check_for_tracing_mode():
 
-- 
2.43.0


From e39ebab694734607b44b28a959411dcb8f45c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:13 +0000
Subject: [PATCH 083/150] fix: gray synthesis of phases with few parity terms

---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 11bec9e..a073858 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -232,12 +232,12 @@ def single_qb_traversal(locations, bit_amount):
     # Solve Hamming TSP to get traversal sequence
     tr_seq = hamming_tsp(locations, bit_amount)
 
-    # Make sure 0 appears last
+    # Make sure 0 appears last (consecutive elements may only differ in one bit)
     if tr_seq[-1] != 0:
-        tr_seq = tr_seq + [0]
+        tr_seq = tr_seq + hamming_movement(tr_seq[-1], 0, bit_amount)
 
     if tr_seq[0] != 0:
-        tr_seq = [0] + tr_seq
+        tr_seq = [0] + hamming_movement(0, tr_seq[0], bit_amount) + tr_seq[1:]
 
     # Turn into binaries
     tr_seq_bin = [int_as_array(x, bit_amount) for x in tr_seq]
-- 
2.43.0


From 64736d1efc76cabcae22b0f84869e8d22ed5d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:14 +0000
Subject: [PATCH 084/150] fix: block encodings of sparse arrays

---
 src/qrisp/operators/qubit/qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 04fe498..8bd7568 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -615,11 +615,11 @@ class QubitOperator(Hamiltonian):
         """
         import numpy as np
         from numpy import ndarray
-        from scipy.sparse import csr_matrix
+        from scipy.sparse import csr_array, csr_matrix
 
         OPERATOR_TABLE = {(0, 0): "P0", (0, 1): "A", (1, 0): "C", (1, 1): "P1"}
 
-        if isinstance(matrix, ndarray):
+        if isinstance(matrix, (ndarray, csr_array)):
             new_matrix = csr_matrix(matrix)
         elif isinstance(matrix, csr_matrix):
             new_matrix = matrix.copy()
-- 
2.43.0


From 49564dcf0e626d79216afaf2422c1eb66e74540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:14 +0000
Subject: [PATCH 085/150] fix: scaling factor of block encodings of a single
 unitary with negative coefficient

---
 src/qrisp/block_encodings/constructors/from_lcu.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/block_encodings/constructors/from_lcu.py b/src/qrisp/block_encodings/constructors/from_lcu.py
index 5d630f2..635242c 100644
--- a/src/qrisp/block_encodings/constructors/from_lcu.py
+++ b/src/qrisp/block_encodings/constructors/from_lcu.py
@@ -23,6 +23,7 @@ import numpy.typing as npt
 
 from qrisp.alg_primitives.state_preparation import prepare
 from qrisp.block_encodings.block_encoding_base import BlockEncoding
+from qrisp.core.gate_application_functions import gphase
 from qrisp.environments import conjugate, invert
 from qrisp.jasp import q_switch, qache
 from qrisp.qtypes import QuantumFloat
@@ -146,10 +147,19 @@ def build_from_lcu(
     # Block encoding of a single unitary (up to normalization)
     if m == 1:
         if np.abs(complex_coeffs[0].imag) < _TOLERANCE:
+            if complex_coeffs[0].real < 0:
+
+                def unitary(*args):
+                    unitaries[0](*args)
+                    gphase(np.pi, args[0][0])
+
+            else:
+                unitary = unitaries[0]
+
             return cls(
-                complex_coeffs[0].real,
+                alpha,
                 [],
-                unitaries[0],
+                unitary,
                 num_ops=num_ops,
                 is_hermitian=is_hermitian,
             )
-- 
2.43.0


From 1bccadc59f1d3e86bcd44489a91a7b461b64589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:14 +0000
Subject: [PATCH 086/150] fix: declared symmetry of walk operators

---
 src/qrisp/block_encodings/block_encoding_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/block_encodings/block_encoding_base.py b/src/qrisp/block_encodings/block_encoding_base.py
index 1aafccc..df32443 100644
--- a/src/qrisp/block_encodings/block_encoding_base.py
+++ b/src/qrisp/block_encodings/block_encoding_base.py
@@ -853,7 +853,7 @@ class BlockEncoding:
                 self._anc_templates,
                 new_unitary_hermitian,
                 num_ops=self.num_ops,
-                is_hermitian=True,
+                is_hermitian=False,
             )
 
         # We construct a strictly Hermitian block-encoding of A = (A + A†)/2.
@@ -890,7 +890,7 @@ class BlockEncoding:
             new_anc_templates,
             new_unitary,
             num_ops=self.num_ops,
-            is_hermitian=True,
+            is_hermitian=False,
         )
 
     def _hermitianization(self) -> BlockEncoding:
@@ -930,7 +930,7 @@ class BlockEncoding:
             new_anc_templates,
             new_unitary,
             num_ops=self.num_ops,
-            is_hermitian=True,
+            is_hermitian=False,
         )
 
     def chebyshev(self, k: int, rescale: bool = True) -> BlockEncoding:
-- 
2.43.0


From 2ea885cf62538121bf7d10f0802ceb1166c50474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:14 +0000
Subject: [PATCH 087/150] fix: wrapped functions without quantum arguments

---
 src/qrisp/misc/utility.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index d9a7e45..c0d8952 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -446,6 +446,11 @@ def gate_wrap_inner(function, permeability=None, is_qfree=None, name=None, verif
             qs = find_qs(args)
         except:
             qs_list = recursive_qs_search([args, kwargs])
+
+            if not qs_list:
+                # Without quantum arguments there is nothing to wrap
+                return function(*args, **kwargs)
+
             qs = qs_list[0]
 
         initial_qubits = set(qs.qubits)
-- 
2.43.0


From 76134842becdff745ba10a6018ffe7c8a97b6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:23 +0000
Subject: [PATCH 088/150] fix: declared symmetry of linear combinations with
 negative or complex coefficients

---
 src/qrisp/block_encodings/constructors/from_lcu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/block_encodings/constructors/from_lcu.py b/src/qrisp/block_encodings/constructors/from_lcu.py
index 635242c..c285454 100644
--- a/src/qrisp/block_encodings/constructors/from_lcu.py
+++ b/src/qrisp/block_encodings/constructors/from_lcu.py
@@ -196,12 +196,13 @@ def build_from_lcu(
         with invert():
             prepare(args[0], complex_coeffs_l)
 
+    # The preparations differ, hence the unitary is not Hermitian (even if all provided unitaries are)
     return cls(
         alpha,
         [QuantumFloat(n).template()],
         unitary,
         num_ops=num_ops,
-        is_hermitian=is_hermitian,
+        is_hermitian=False,
     )
 
 
-- 
2.43.0


From 4e6eaa513ca24414bebb1f9dcefd5ec35b879316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:23 +0000
Subject: [PATCH 089/150] fix: signal processing angles of complex polynomials

---
 src/qrisp/algorithms/gqsp/gqsp_angles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/gqsp/gqsp_angles.py b/src/qrisp/algorithms/gqsp/gqsp_angles.py
index e84d912..3338f80 100644
--- a/src/qrisp/algorithms/gqsp/gqsp_angles.py
+++ b/src/qrisp/algorithms/gqsp/gqsp_angles.py
@@ -189,7 +189,8 @@ def _inlft(a: "ArrayLike", b: "ArrayLike") -> Array:
         return (a_star_new, b_new), Fk
 
     # Initial state for the carry
-    initial_carry = (jnp.conjugate(a), b)
+    # (the outer completion a is already the polynomial a^* in the sense of the layer stripping algorithm)
+    initial_carry = (a, b)
 
     # Execute the scan loop for the length of 'a'
     # jax.lax.scan returns the final state (which we ignore with '_') and the stacked outputs
-- 
2.43.0


From 7825fae17c2d25e83ae76e549b3b6ad86c14c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:23 +0000
Subject: [PATCH 090/150] fix: singular value transformation with constant
 polynomials

---
 src/qrisp/algorithms/gqsp/gqsp_angles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/algorithms/gqsp/gqsp_angles.py b/src/qrisp/algorithms/gqsp/gqsp_angles.py
index 3338f80..cbd6103 100644
--- a/src/qrisp/algorithms/gqsp/gqsp_angles.py
+++ b/src/qrisp/algorithms/gqsp/gqsp_angles.py
@@ -573,6 +573,10 @@ def qsvt_angles(p: "ArrayLike", parity: Literal["even", "odd"] = "odd") -> tuple
 
     d = len(phi_qsp) - 1
 
+    # The corrections of the first and the last angle cancel for constant polynomials
+    if d == 0:
+        return phi_qsp, alpha
+
     phi_qsvt = jnp.zeros(d + 1)
     phi_qsvt = phi_qsvt.at[0].set(phi_qsp[0] + (2 * d - 1) * np.pi / 4)
     phi_qsvt = phi_qsvt.at[1:].set(phi_qsp[1:] - np.pi / 2)
-- 
2.43.0


From 46e0a537b0e1febf77832b76684bc862ca17818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:23 +0000
Subject: [PATCH 091/150] fix: pseudo inverse of operators that are not
 Hermitian

---
 src/qrisp/algorithms/gqsp/pseudo_inversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/gqsp/pseudo_inversion.py b/src/qrisp/algorithms/gqsp/pseudo_inversion.py
index 8a8b0e8..ca37a8f 100644
--- a/src/qrisp/algorithms/gqsp/pseudo_inversion.py
+++ b/src/qrisp/algorithms/gqsp/pseudo_inversion.py
@@ -186,7 +186,8 @@ def pseudo_inversion(
     p = _pseudo_inversion_cheb(theta, delta, eps)
 
     # Set _rescale=False to apply p(A/α) instead of p(A).
-    A_pseudo_inv = QSVT(A, p, kind="Chebyshev", rescale=False)
+    # The pseudo inverse maps left to right singular vectors, hence the adjoint is transformed
+    A_pseudo_inv = QSVT(A.dagger(), p, kind="Chebyshev", rescale=False)
 
     # Adjust scaling factor since (A/α)^{-1} = αA^{-1}.
     A_pseudo_inv.alpha = A_pseudo_inv.alpha / A.alpha
-- 
2.43.0


From 5d7ba749cf524b0478934e0d737ad8aa8a57d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:37 +0000
Subject: [PATCH 092/150] fix: eigenvalue transform of polynomials with
 trailing zero coefficients

---
 src/qrisp/algorithms/gqsp/qet.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qrisp/algorithms/gqsp/qet.py b/src/qrisp/algorithms/gqsp/qet.py
index 52bb1ac..f600575 100644
--- a/src/qrisp/algorithms/gqsp/qet.py
+++ b/src/qrisp/algorithms/gqsp/qet.py
@@ -17,7 +17,9 @@
 
 from typing import TYPE_CHECKING, Literal
 
+import jax
 import jax.numpy as jnp
+import numpy as np
 
 from qrisp.alg_primitives.reflection import reflection
 from qrisp.algorithms.gqsp.gqsp_angles import gqsp_angles
@@ -139,6 +141,12 @@ def QET(
         # [-0.024058    0.57657692  0.61493253  0.53743673]
 
     """
+    # The angles have fixed parity only if the leading coefficient is the last one
+    if not isinstance(p, jax.core.Tracer):
+        nonzero = np.flatnonzero(np.abs(np.asarray(p)) > 1e-6)
+        if len(nonzero):
+            p = p[: nonzero[-1] + 1]
+
     # is_real = jnp.allclose(p.imag, 0, atol=1e-6)
     # is_even = jnp.allclose(p[1::2], 0, atol=1e-6)
     is_odd = jnp.allclose(p[0::2], 0, atol=1e-6)
-- 
2.43.0


From 1617db28394f609ba3722b756e82bbcf7d1f8248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:48 +0000
Subject: [PATCH 093/150] fix: multi-controlled X gates without controls in
 tracing mode

---
 src/qrisp/core/gate_application_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 894a58e..7cbb7b3 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -526,6 +526,8 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
             raise Exception(f"Given control state {ctrl_state} does not match control qubit amount {n}")
     else:
         qubits_0 = controls
+        if isinstance(qubits_0, list) and len(qubits_0) == 0:
+            return controls, target
         if isinstance(qubits_0, (QuantumVariable, DynamicQubitArray)) and method not in ["balauca", "khattar"]:
             method = "balauca"
         if isinstance(ctrl_state, str) and method in ["balauca", "khattar"]:
-- 
2.43.0


From 9d467f5ce0c22ead324d3aad01352f23783fc0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:59 +0000
Subject: [PATCH 094/150] fix: weight of infeasible outcomes in the minimum set
 cover cost

---
 src/qrisp/algorithms/qaoa/problems/minSetCover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/qaoa/problems/minSetCover.py b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
index e7d7b13..dc52e21 100644
--- a/src/qrisp/algorithms/qaoa/problems/minSetCover.py
+++ b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
@@ -84,7 +84,7 @@ def create_min_set_cover_cl_cost_function(sets, universe):
             if len(solution_sets) > 0 and set.union(*solution_sets) == universe:
                 cost += len(indices) * prob
             else:
-                cost += len(sets)
+                cost += len(sets) * prob
 
         return cost
 
-- 
2.43.0


From e986b6b3220a25a082440248f0254e4664786bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:59 +0000
Subject: [PATCH 095/150] fix: minimum set cover mixer removing sets that are
 the only cover of an element

---
 src/qrisp/algorithms/qaoa/problems/minSetCover.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/algorithms/qaoa/problems/minSetCover.py b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
index dc52e21..8c3337e 100644
--- a/src/qrisp/algorithms/qaoa/problems/minSetCover.py
+++ b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
@@ -45,11 +45,15 @@ def create_min_set_cover_mixer(sets, universe):
         x(anc)
         for anc_index, element in enumerate(sets[i]):
             other_sets = [item for item in membership_dict[element] if item != i]
-            mcx(
-                [qv[set_index] for set_index in other_sets],
-                anc[anc_index],
-                ctrl_state="0" * len(other_sets),
-            )
+            if len(other_sets) == 0:
+                # No other set covers this element
+                x(anc[anc_index])
+            else:
+                mcx(
+                    [qv[set_index] for set_index in other_sets],
+                    anc[anc_index],
+                    ctrl_state="0" * len(other_sets),
+                )
         qbl = QuantumBool()
         mcx(anc, qbl)
         return qbl
-- 
2.43.0


From 0c01ba5b0bb9552ab7a2a1eeb68de18941e31d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:59 +0000
Subject: [PATCH 096/150] fix: max-cut cost function for graphs with more than
 32 nodes

---
 src/qrisp/algorithms/qaoa/problems/maxCut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/algorithms/qaoa/problems/maxCut.py b/src/qrisp/algorithms/qaoa/problems/maxCut.py
index d1227a9..a961471 100644
--- a/src/qrisp/algorithms/qaoa/problems/maxCut.py
+++ b/src/qrisp/algorithms/qaoa/problems/maxCut.py
@@ -87,7 +87,7 @@ def create_maxcut_cl_cost_function(G: nx.Graph) -> Callable[[dict], float]:
 
     def cl_cost_function(counts: dict) -> float:
 
-        edge_array = np.array(list(G.edges()), dtype=np.uint32)
+        edge_array = np.array(list(G.edges()), dtype=np.uint64)
 
         counts_keys = list(counts.keys())
 
@@ -102,7 +102,7 @@ def create_maxcut_cl_cost_function(G: nx.Graph) -> Callable[[dict], float]:
                 int_list.append(integer)
 
         counts_array = np.array(list(counts.values()))
-        outcome_array = np.array(int_list, dtype=np.uint32)
+        outcome_array = np.array(int_list, dtype=np.uint64)
 
         return maxcut_energy(outcome_array, counts_array, edge_array)
 
-- 
2.43.0


From 6d5df31a09db233806c0c1b24b158f19a613d105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:59 +0000
Subject: [PATCH 097/150] fix: max-cut cost functions for graphs without edges

---
 src/qrisp/algorithms/qaoa/problems/maxCut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/algorithms/qaoa/problems/maxCut.py b/src/qrisp/algorithms/qaoa/problems/maxCut.py
index a961471..e65d8d1 100644
--- a/src/qrisp/algorithms/qaoa/problems/maxCut.py
+++ b/src/qrisp/algorithms/qaoa/problems/maxCut.py
@@ -87,7 +87,7 @@ def create_maxcut_cl_cost_function(G: nx.Graph) -> Callable[[dict], float]:
 
     def cl_cost_function(counts: dict) -> float:
 
-        edge_array = np.array(list(G.edges()), dtype=np.uint64)
+        edge_array = np.array(list(G.edges()), dtype=np.uint64).reshape(-1, 2)
 
         counts_keys = list(counts.keys())
 
@@ -129,7 +129,7 @@ def create_cut_computer(G: nx.Graph) -> Callable[[ArrayLike], Array]:
         A JIT-compiled function mapping an integer bitstring to its (negated) cut value.
 
     """
-    edge_list = jnp.array(G.edges())
+    edge_list = jnp.array(list(G.edges()), dtype=jnp.int32).reshape(-1, 2)
 
     @jit
     def cut_computer(x: ArrayLike) -> Array:
-- 
2.43.0


From 488409368e241a9752e9ccd6570cc0db7ec9434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:59 +0000
Subject: [PATCH 098/150] fix: constrained mixers on quantum arrays

---
 src/qrisp/algorithms/qaoa/mixers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/qaoa/mixers.py b/src/qrisp/algorithms/qaoa/mixers.py
index 3a97d5b..48f584e 100644
--- a/src/qrisp/algorithms/qaoa/mixers.py
+++ b/src/qrisp/algorithms/qaoa/mixers.py
@@ -239,8 +239,13 @@ def constrained_mixer_gen(constraint_oracle, winner_state_amount):
 
     def constrained_mixer(qarg, beta):
 
+        if isinstance(qarg, QuantumArray):
+            qubits = sum([list(qv) for qv in qarg.flatten()], [])
+        else:
+            qubits = qarg
+
         with conjugate(inv_prep_psi)(qarg):
-            mcp(beta, qarg, ctrl_state=0)
+            mcp(beta, qubits, ctrl_state=0)
 
     return constrained_mixer
 
-- 
2.43.0


From 993d5223559bfca3c73f8ae32b5c7617769ffbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:59 +0000
Subject: [PATCH 099/150] fix: decoding of binary encoded colors for color
 numbers that are no power of two

---
 src/qrisp/algorithms/qaoa/problems/maxKColorableSubgraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/algorithms/qaoa/problems/maxKColorableSubgraph.py b/src/qrisp/algorithms/qaoa/problems/maxKColorableSubgraph.py
index 313e5ea..ea51d7c 100644
--- a/src/qrisp/algorithms/qaoa/problems/maxKColorableSubgraph.py
+++ b/src/qrisp/algorithms/qaoa/problems/maxKColorableSubgraph.py
@@ -105,6 +105,9 @@ class QuantumColor(QuantumVariable):
             # Green: [0,1]
             # Green: [1,0]
             # Yellow:[1,1]
+            if i >= len(self.list_of_colors):
+                return "undefined"
+
             return self.list_of_colors[i]
 
         else:
-- 
2.43.0


From e67c2cfdb2174fcc4ec10bdc2eb47976e3f6a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:59 +0000
Subject: [PATCH 100/150] fix: undefined start state of the coloring problem

---
 src/qrisp/algorithms/qaoa/problems/maxKColorableSubgraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/algorithms/qaoa/problems/maxKColorableSubgraph.py b/src/qrisp/algorithms/qaoa/problems/maxKColorableSubgraph.py
index ea51d7c..afde245 100644
--- a/src/qrisp/algorithms/qaoa/problems/maxKColorableSubgraph.py
+++ b/src/qrisp/algorithms/qaoa/problems/maxKColorableSubgraph.py
@@ -147,6 +147,9 @@ def initial_state_mkcs(qarg):
         the information of the initial state of the system.
 
     """
+    colors = qarg.qtype.list_of_colors
+    init_state = np.array([colors[i % len(colors)] for i in range(qarg.size)]).reshape(qarg.shape)
+
     # Set all elements in qarg to initial state
     qarg[:] = init_state
 
-- 
2.43.0


From ac89d0b0d63adbca825582684b93b071f633081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:59 +0000
Subject: [PATCH 101/150] fix: variational algorithms altering the keyword
 arguments of the caller

---
 src/qrisp/algorithms/cold/dcqo_problem.py | 2 +-
 src/qrisp/algorithms/lanczos.py           | 2 +-
 src/qrisp/algorithms/qaoa/qaoa_problem.py | 6 ++++--
 src/qrisp/algorithms/vqe/vqe_problem.py   | 8 ++++++--
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/algorithms/cold/dcqo_problem.py b/src/qrisp/algorithms/cold/dcqo_problem.py
index 629c22b..11c3222 100644
--- a/src/qrisp/algorithms/cold/dcqo_problem.py
+++ b/src/qrisp/algorithms/cold/dcqo_problem.py
@@ -672,7 +672,7 @@ class DCQOProblem:
 
         # Measure qarg
         if "shots" not in mes_kwargs:
-            mes_kwargs["shots"] = 5000
+            mes_kwargs = {**mes_kwargs, "shots": 5000}
         res_dict = dict(qarg.get_measurement(**mes_kwargs))
 
         # Add qubo cost in result dict
diff --git a/src/qrisp/algorithms/lanczos.py b/src/qrisp/algorithms/lanczos.py
index 93ef5b9..770991b 100644
--- a/src/qrisp/algorithms/lanczos.py
+++ b/src/qrisp/algorithms/lanczos.py
@@ -219,7 +219,7 @@ def lanczos_expvals(
     """
     # Set default options
     if "shots" not in mes_kwargs:
-        mes_kwargs["shots"] = 100000
+        mes_kwargs = {**mes_kwargs, "shots": 100000}
 
     BE = H if isinstance(H, BlockEncoding) else BlockEncoding.from_operator(H)
 
diff --git a/src/qrisp/algorithms/qaoa/qaoa_problem.py b/src/qrisp/algorithms/qaoa/qaoa_problem.py
index 0ab71f3..d0e8af3 100644
--- a/src/qrisp/algorithms/qaoa/qaoa_problem.py
+++ b/src/qrisp/algorithms/qaoa/qaoa_problem.py
@@ -595,7 +595,8 @@ class QAOAProblem:
                 return template.construct()
 
         # Set default options
-        options["maxiter"] = max_iter
+        options = {**options, "maxiter": max_iter}
+        mes_kwargs = dict(mes_kwargs)
 
         if "shots" not in mes_kwargs:
             mes_kwargs["shots"] = 5000
@@ -741,7 +742,8 @@ class QAOAProblem:
                 return template.construct()
 
         # Set default options
-        options["maxiter"] = max_iter
+        options = {**options, "maxiter": max_iter}
+        mes_kwargs = dict(mes_kwargs)
 
         if "shots" not in mes_kwargs:
             mes_kwargs["shots"] = 5000
diff --git a/src/qrisp/algorithms/vqe/vqe_problem.py b/src/qrisp/algorithms/vqe/vqe_problem.py
index eeba335..54252f9 100644
--- a/src/qrisp/algorithms/vqe/vqe_problem.py
+++ b/src/qrisp/algorithms/vqe/vqe_problem.py
@@ -429,13 +429,15 @@ class VQEProblem:
                 return template.construct()
 
         # Set default options
+        mes_kwargs = dict(mes_kwargs)
+
         if "precision" not in mes_kwargs:
             mes_kwargs["precision"] = 0.01
 
         if "diagonalisation_method" not in mes_kwargs:
             mes_kwargs["diagonalisation_method"] = "commuting_qw"
 
-        options["maxiter"] = max_iter
+        options = {**options, "maxiter": max_iter}
 
         if check_for_tracing_mode():
             measurement_data = None
@@ -515,13 +517,15 @@ class VQEProblem:
                 return template.construct()
 
         # Set default options
+        mes_kwargs = dict(mes_kwargs)
+
         if "precision" not in mes_kwargs:
             mes_kwargs["precision"] = 0.01
 
         if "diagonalisation_method" not in mes_kwargs:
             mes_kwargs["diagonalisation_method"] = "commuting_qw"
 
-        options["maxiter"] = max_iter
+        options = {**options, "maxiter": max_iter}
 
         if check_for_tracing_mode():
             measurement_data = None
-- 
2.43.0


From 63467dfc60d1dffd5c932b1a4ac48fbf6ad5f15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:59 +0000
Subject: [PATCH 102/150] fix: parameters of different ansatz layers sharing a
 symbol

---
 src/qrisp/algorithms/vqe/vqe_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/vqe/vqe_problem.py b/src/qrisp/algorithms/vqe/vqe_problem.py
index 54252f9..3b3fce5 100644
--- a/src/qrisp/algorithms/vqe/vqe_problem.py
+++ b/src/qrisp/algorithms/vqe/vqe_problem.py
@@ -185,7 +185,7 @@ class VQEProblem:
         temp = list(qarg.qs.data)
 
         # Define parameters theta for VQE circuit
-        theta = [Symbol("theta_" + str(i) + str(j)) for i in range(depth) for j in range(self.num_params)]
+        theta = [Symbol("theta_" + str(i) + "_" + str(j)) for i in range(depth) for j in range(self.num_params)]
 
         # Prepare the initial state for particular problem instance, the default is the \ket{0} state
         if self.init_function is not None:
-- 
2.43.0


From 9c35a113d1c3cf59d030027ca155d44753e0d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:59 +0000
Subject: [PATCH 103/150] fix: ansatz layers receiving the first parameter of
 the next layer

---
 src/qrisp/algorithms/vqe/vqe_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/algorithms/vqe/vqe_problem.py b/src/qrisp/algorithms/vqe/vqe_problem.py
index 3b3fce5..510a754 100644
--- a/src/qrisp/algorithms/vqe/vqe_problem.py
+++ b/src/qrisp/algorithms/vqe/vqe_problem.py
@@ -337,7 +337,7 @@ class VQEProblem:
                 self.init_function(qarg)
 
             for i in range(depth):
-                self.ansatz_function(qarg, theta[self.num_params * i : self.num_params * (i + 1) + 1])
+                self.ansatz_function(qarg, theta[self.num_params * i : self.num_params * (i + 1)])
 
             return qarg
 
@@ -553,7 +553,7 @@ class VQEProblem:
                 self.init_function(qarg)
 
             for i in range(depth):
-                self.ansatz_function(qarg, opt_theta[self.num_params * i : self.num_params * (i + 1) + 1])
+                self.ansatz_function(qarg, opt_theta[self.num_params * i : self.num_params * (i + 1)])
 
         return circuit_generator
 
-- 
2.43.0


From 734108f55a4a73b4c4a4860667731a74d9051730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:58:55 +0000
Subject: [PATCH 104/150] fix: control environments on temporary variables
 collected too early

---
 src/qrisp/environments/control_environment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/environments/control_environment.py b/src/qrisp/environments/control_environment.py
index de72730..78116c3 100644
--- a/src/qrisp/environments/control_environment.py
+++ b/src/qrisp/environments/control_environment.py
@@ -474,6 +474,10 @@ def control(*args, **kwargs):
     from qrisp import QuantumBool, QuantumVariable, Qubit
     from qrisp.jasp import AbstractQubit, check_for_tracing_mode
 
+    # Qubits only hold weak references to their session. If the control variable
+    # is a temporary, it has to stay alive until the environment holds the session.
+    ctrl_variable = args[0]
+
     if isinstance(args[0], QuantumVariable):
         if isinstance(args[0], QuantumBool):
             args[0] = [args[0][0]]
-- 
2.43.0


From 15f5a4cf69022ec91d93a7bd46baec02bd0b4458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:45 +0000
Subject: [PATCH 105/150] fix: Qiskit jobs returning no result after their
 status was queried

---
 src/qrisp/interface/provider_backends/qiskit_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/interface/provider_backends/qiskit_backend.py b/src/qrisp/interface/provider_backends/qiskit_backend.py
index b751f18..2b18c5c 100644
--- a/src/qrisp/interface/provider_backends/qiskit_backend.py
+++ b/src/qrisp/interface/provider_backends/qiskit_backend.py
@@ -139,7 +139,9 @@ class QiskitJob(Job):
         """
         if self._last_known_status in JOB_FINAL_STATES:
             self._raise_for_status(self._last_known_status)
-            return cast(JobResult, self._cached_result)
+            # The status might have been queried before the result was retrieved
+            if self._cached_result is not None:
+                return self._cached_result
 
         try:
             # Only pass timeout when explicitly requested: local backends such
-- 
2.43.0


From 4954b391c55d023b20f84d9623c35e808ba9b15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:45 +0000
Subject: [PATCH 106/150] fix: batches with a wrong number of results being
 accepted silently

---
 src/qrisp/interface/batched_backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/interface/batched_backend.py b/src/qrisp/interface/batched_backend.py
index 638055b..3dccd87 100644
--- a/src/qrisp/interface/batched_backend.py
+++ b/src/qrisp/interface/batched_backend.py
@@ -296,6 +296,10 @@ class BatchedBackend:
         unique = set(chunk_shots)
         effective_shots = chunk_shots[0] if len(unique) == 1 else chunk_shots
         chunk_counts = self._backend.run_async(chunk_circuits, shots=effective_shots).result(timeout=timeout).all_counts
+        if len(chunk_counts) != len(chunk_raws):
+            raise RuntimeError(
+                f"The backend returned {len(chunk_counts)} results for {len(chunk_raws)} circuits."
+            )
         for raw, counts in zip(chunk_raws, chunk_counts):
             raw._inject(counts)
 
-- 
2.43.0


From 1c33c4d26da4c7ff77ff9d98a5a2a0ad9933f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:45 +0000
Subject: [PATCH 107/150] fix: keyword arguments of most_likely being ignored

---
 src/qrisp/core/quantum_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index 0ae2ebf..ec7dc79 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -1101,7 +1101,7 @@ class QuantumVariable:
         1
 
         """
-        return list(self.get_measurement())[0]
+        return list(self.get_measurement(**kwargs))[0]
 
     def __getitem__(self, key):
         return self.reg[key]
-- 
2.43.0


From b0cd78afdd823f8a81978b53b69fc9feeee826e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:45 +0000
Subject: [PATCH 108/150] fix: queued measurement circuits becoming invalid by
 renaming qubits

---
 src/qrisp/misc/utility.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index c0d8952..e2d8ab4 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -787,6 +787,10 @@ def multi_measurement(qv_list, shots=None, backend=None):
         temp.extend(list(qa.flatten()))
 
     compiled_qc = qompiler(qv_list[0].qs, intended_measurements=sum([qv.reg for qv in temp], []))
+    # Measure the qubits of the circuit instead of the (equal) qubits of the session,
+    # since the latter might be renamed before the circuit is executed
+    qubit_dic = {qb: qb for qb in compiled_qc.qubits}
+
     # Add classical registers for the measurement results to be stored in
     cl_reg_list = []
 
@@ -806,7 +810,7 @@ def multi_measurement(qv_list, shots=None, backend=None):
         cl_reg_list.append(cl_reg)
 
         # Add measurement instruction
-        compiled_qc.measure(qubits, cl_reg)
+        compiled_qc.measure([qubit_dic.get(qb, qb) for qb in qubits], cl_reg)
 
     raw = backend.run(compiled_qc, shots)
     return MultiMeasurementResult(raw, qv_list, cl_reg_list)
@@ -1336,8 +1340,12 @@ def get_measurement_from_qc(qc, qubits, backend: "BackendLike", shots=None) -> "
     for i in range(len(qubits)):
         cl.append(qc.add_clbit())
 
+    # Measure the qubits of the circuit instead of the (equal) qubits of the session,
+    # since the latter might be renamed before the circuit is executed
+    qubit_dic = {qb: qb for qb in qc.qubits}
+
     for i in range(len(qubits)):
-        qc.measure(qubits[i], cl[i])
+        qc.measure(qubit_dic.get(qubits[i], qubits[i]), cl[i])
 
     raw = backend.run(qc, shots=shots)
     if not isinstance(raw, MeasurementResult):
-- 
2.43.0


From 03d04bc3cec47d753aa86c5894fc6296e3e6a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:27 +0000
Subject: [PATCH 109/150] fix: measurement results changing with later
 modifications of the variable

---
 src/qrisp/core/quantum_array.py           |  4 ++--
 src/qrisp/core/quantum_variable.py        |  4 ++--
 src/qrisp/interface/batched_backend.py    |  4 +---
 src/qrisp/interface/measurement_result.py | 27 ++++++++++++++++++++++-
 4 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index 4b09afa..1d3c870 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -707,11 +707,11 @@ class QuantumArray:
         if circuit_preprocessor is not None:
             qc = circuit_preprocessor(qc)
 
-        from qrisp.interface.measurement_result import DecodedMeasurementResult
+        from qrisp.interface.measurement_result import DecodedMeasurementResult, decoding_snapshot
         from qrisp.misc import get_measurement_from_qc
 
         counts = get_measurement_from_qc(qc, qubits, backend, shots)
-        return DecodedMeasurementResult(counts, self.decoder)
+        return DecodedMeasurementResult(counts, decoding_snapshot(self).decoder)
 
     def decoder(self, code_int):
         """The decoder method specifies how a QuantumArray turns the outcomes of
diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index ec7dc79..b4e11d5 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -1062,11 +1062,11 @@ class QuantumVariable:
 
         # qc = qc.transpile()
 
-        from qrisp.interface.measurement_result import DecodedMeasurementResult
+        from qrisp.interface.measurement_result import DecodedMeasurementResult, decoding_snapshot
         from qrisp.misc import get_measurement_from_qc
 
         counts = get_measurement_from_qc(qc, self.reg, backend, shots)
-        result = DecodedMeasurementResult(counts, self.decoder)
+        result = DecodedMeasurementResult(counts, decoding_snapshot(self).decoder)
 
         if plot:
             outcome_labels = []
diff --git a/src/qrisp/interface/batched_backend.py b/src/qrisp/interface/batched_backend.py
index 3dccd87..8cdebc3 100644
--- a/src/qrisp/interface/batched_backend.py
+++ b/src/qrisp/interface/batched_backend.py
@@ -297,9 +297,7 @@ class BatchedBackend:
         effective_shots = chunk_shots[0] if len(unique) == 1 else chunk_shots
         chunk_counts = self._backend.run_async(chunk_circuits, shots=effective_shots).result(timeout=timeout).all_counts
         if len(chunk_counts) != len(chunk_raws):
-            raise RuntimeError(
-                f"The backend returned {len(chunk_counts)} results for {len(chunk_raws)} circuits."
-            )
+            raise RuntimeError(f"The backend returned {len(chunk_counts)} results for {len(chunk_raws)} circuits.")
         for raw, counts in zip(chunk_raws, chunk_counts):
             raw._inject(counts)
 
diff --git a/src/qrisp/interface/measurement_result.py b/src/qrisp/interface/measurement_result.py
index 536a143..e6b434d 100644
--- a/src/qrisp/interface/measurement_result.py
+++ b/src/qrisp/interface/measurement_result.py
@@ -22,6 +22,7 @@ from __future__ import annotations
 
 from abc import ABC, abstractmethod
 from collections.abc import Callable, Mapping
+from copy import copy
 from typing import Any
 
 import numpy as np
@@ -250,6 +251,30 @@ class MeasurementResult(LazyDict):
         self._error = exc
 
 
+def decoding_snapshot(var):
+    """Return a shallow copy of a quantum variable that can be used to decode its measurement results.
+
+    Measurement results are decoded lazily. The snapshot makes sure that modifying
+    the variable (for instance by changing its size or exponent) after the
+    measurement was requested doesn't alter the result.
+
+    Parameters
+    ----------
+    var : QuantumVariable or QuantumArray
+        The measured variable.
+
+    Returns
+    -------
+    QuantumVariable or QuantumArray
+        The copy of the variable.
+
+    """
+    snapshot = copy(var)
+    if isinstance(getattr(var, "reg", None), list):
+        snapshot.reg = list(var.reg)
+    return snapshot
+
+
 class DecodedMeasurementResult(LazyDict):
     """Human-readable measurement result produced by
     :meth:`QuantumVariable.get_measurement() <qrisp.QuantumVariable.get_measurement>`.
@@ -380,7 +405,7 @@ class MultiMeasurementResult(LazyDict):
     def __init__(self, raw: MeasurementResult, qv_list: list, cl_reg_list: list) -> None:
         super().__init__()
         self._raw = raw
-        self._qv_list = qv_list
+        self._qv_list = [decoding_snapshot(qv) for qv in qv_list]
         self._cl_reg_list = cl_reg_list
 
     def _populate(self) -> None:
-- 
2.43.0


From eeec136d980da268eece54f4784be79e3ffe0224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:28 +0000
Subject: [PATCH 110/150] fix: quantum strings not measurable with batched
 backends

---
 src/qrisp/qtypes/quantum_string.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/qrisp/qtypes/quantum_string.py b/src/qrisp/qtypes/quantum_string.py
index f3192d8..2317cde 100644
--- a/src/qrisp/qtypes/quantum_string.py
+++ b/src/qrisp/qtypes/quantum_string.py
@@ -81,16 +81,6 @@ class QuantumString(QuantumArray):
 
         QuantumArray.__init__(self, qtype=qtype, shape=size, qs=qs)
 
-    def get_measurement(self, **kwargs):
-        mes_result = QuantumArray.get_measurement(self, **kwargs)
-
-        return_dic = {}
-
-        for k, v in mes_result.items():
-            return_dic["".join(list(k))] = v
-
-        return return_dic
-
     def decoder(self, code_int):
         res_array = QuantumArray.decoder(self, code_int)
         res_str = ""
-- 
2.43.0


From b08f0b252555efb83cd310a3ab314a5653db8bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:42 +0000
Subject: [PATCH 111/150] fix: session merging renaming variables with a user
 given name

---
 src/qrisp/core/session_merging_tools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/core/session_merging_tools.py b/src/qrisp/core/session_merging_tools.py
index 1d32440..25fe533 100644
--- a/src/qrisp/core/session_merging_tools.py
+++ b/src/qrisp/core/session_merging_tools.py
@@ -238,9 +238,8 @@ def resolve_naming_collisions(qs_0, qs_1):
 
                 qv_0, qv_1 = qv_1, qv_0
 
-            elif qv_0.creation_time > qv_1.creation_time:
-                if not qv_1.user_given_name:
-                    qv_0, qv_1 = qv_1, qv_0
+            elif qv_0.creation_time > qv_1.creation_time and not qv_0.user_given_name:
+                qv_0, qv_1 = qv_1, qv_0
 
             proposed_new_name = qv_1.name + "_1"
             k = 1
-- 
2.43.0


From 8815a869ff37463caf66d887361fe3052e86d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:42 +0000
Subject: [PATCH 112/150] fix: deleting a variable affecting the lifetime of
 equally named variables

---
 src/qrisp/core/quantum_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index b4e11d5..01154aa 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -479,7 +479,7 @@ class QuantumVariable:
                 QuantumVariable.live_qvs.pop(i)
                 continue
 
-            if QuantumVariable.live_qvs[i]().name == self.name:
+            if QuantumVariable.live_qvs[i]() is self:
                 QuantumVariable.live_qvs.pop(i)
                 break
 
-- 
2.43.0


From a20418ef6fb420bbfd7cb862589bb6bc9a281c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:42 +0000
Subject: [PATCH 113/150] fix: duplicates with a non-binding name being treated
 as named by the user

---
 src/qrisp/core/quantum_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index 01154aa..37b0f8b 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -549,7 +549,7 @@ class QuantumVariable:
 
         if name is not None:
             if name[-1] == "*":
-                self.user_given_name = False
+                duplicate.user_given_name = False
                 name = name[:-1]
             else:
                 duplicate.user_given_name = True
-- 
2.43.0


From 05bdc8e0be2d9723b552cd0a01454758109872da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:16 +0000
Subject: [PATCH 114/150] fix: name collisions of variables created in sessions
 with open environments

---
 src/qrisp/core/quantum_session.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/core/quantum_session.py b/src/qrisp/core/quantum_session.py
index 2a7eec7..9068b7e 100644
--- a/src/qrisp/core/quantum_session.py
+++ b/src/qrisp/core/quantum_session.py
@@ -206,6 +206,10 @@ class QuantumSession(QuantumCircuit):
         None.
 
         """
+        # Allocating the qubits merges this session into the sessions of the open
+        # environments. To detect naming collisions, the merge has to happen first.
+        multi_session_merge([self])
+
         if qv.name in [temp_qv.name for temp_qv in self.qv_list + self.deleted_qv_list]:
             raise RuntimeError("Variable name " + str(qv.name) + " already exists in quantum session")
 
-- 
2.43.0


From c974219506b2c85806359240432a48361f0b9843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:28:11 +0000
Subject: [PATCH 115/150] fix: relative phases of swapping into a quantum
 indexed array entry

---
 src/qrisp/alg_primitives/iterable_processing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/iterable_processing.py b/src/qrisp/alg_primitives/iterable_processing.py
index 0a95645..e46305e 100644
--- a/src/qrisp/alg_primitives/iterable_processing.py
+++ b/src/qrisp/alg_primitives/iterable_processing.py
@@ -209,12 +209,14 @@ def q_indexing(q_array, index):
 def q_swap_into(q_array, index, qv):
     from qrisp import invert, swap
 
+    # The phase tolerant control method can not be used here, because the phases of
+    # the demuxings don't cancel if the entry is modified in between
     with invert():
-        demux(q_array[0], index, q_array, ctrl_method="gray_pt")
+        demux(q_array[0], index, q_array)
 
     swap(q_array[0], qv)
 
-    demux(q_array[0], index, q_array, ctrl_method="gray_pt")
+    demux(q_array[0], index, q_array)
 
 
 def cyclic_shift(iterable, shift_amount=1):
-- 
2.43.0


From b3b35a9c36fd352d5a22d82f118d0cfee2a61e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:37 +0000
Subject: [PATCH 116/150] fix: compiled while loops capturing registers and
 classical values

---
 .../interpreter_tools/interpreters/catalyst_interpreter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py
index 7167419..4da7a15 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py
@@ -473,12 +473,13 @@ def process_while(eqn, context_dic):
 
     flattened_invalues = flatten_signature(invalues, eqn.invars)
 
-    k = eqn.params["body_nconsts"]
-    new_body_nconsts = len(flatten_signature(invalues[:k], eqn.invars[:k]))
-
+    # The constants of the condition precede the constants of the body
     k = eqn.params["cond_nconsts"]
     new_cond_nconsts = len(flatten_signature(invalues[:k], eqn.invars[:k]))
 
+    l = k + eqn.params["body_nconsts"]
+    new_body_nconsts = len(flatten_signature(invalues[k:l], eqn.invars[k:l]))
+
     outvalues = while_p.bind(
         *flattened_invalues,
         cond_jaxpr=cond_jaxpr,
-- 
2.43.0


From 25ab37cb071cdcbf77f4853ed65d2f18226c454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:37 +0000
Subject: [PATCH 117/150] fix: compilation of conditionals processing qubit
 arrays without quantum state

---
 .../jasp/interpreter_tools/interpreters/catalyst_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py
index 4da7a15..a2a7557 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py
@@ -505,7 +505,7 @@ def process_cond(eqn, context_dic):
 
     invalues = extract_invalues(eqn, context_dic)
 
-    if isinstance(eqn.invars[-1].aval, AbstractQuantumState):
+    if any(isinstance(var.aval, (AbstractQuantumState, AbstractQubitArray)) for var in eqn.invars):
         if len(branch_list) > 2:
             raise Exception(
                 "Converting cond primitive with more than 2 branches to Catalyst is currently not supported."
-- 
2.43.0


From 9d47ad9ad65690073a21f801bb3b63f789588bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:37 +0000
Subject: [PATCH 118/150] fix: slices of dynamic lists with out of range bounds

---
 src/qrisp/jasp/interpreter_tools/dynamic_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/jasp/interpreter_tools/dynamic_list.py b/src/qrisp/jasp/interpreter_tools/dynamic_list.py
index a8804ee..d193fb9 100644
--- a/src/qrisp/jasp/interpreter_tools/dynamic_list.py
+++ b/src/qrisp/jasp/interpreter_tools/dynamic_list.py
@@ -115,6 +115,7 @@ class Jlist:
                 start = 0
             else:
                 start = key.start + (key.start < 0) * self.counter
+                start = jnp.maximum(start, 0)
 
             if key.stop is None:
                 stop = self.counter
@@ -122,7 +123,7 @@ class Jlist:
                 stop = jnp.minimum(key.stop, self.counter)
                 stop = stop + (stop < 0) * self.counter
 
-            length = stop - start
+            length = jnp.maximum(stop - start, 0)
 
             def body_fun(i, state):
                 new_array, old_array = state
-- 
2.43.0


From ed1dc204d8ec7fa9f2a71cba8b5edc3cba2fd57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:37 +0000
Subject: [PATCH 119/150] fix: post processing of measurements of slices with
 negative or out of range bounds

---
 .../interpreters/post_processing_interpreter.py            | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/post_processing_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/post_processing_interpreter.py
index 750e4c0..07ef531 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/post_processing_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/post_processing_interpreter.py
@@ -218,7 +218,12 @@ def extract_post_processing(jaspr, *args):
                 start = context_dic[eqn.invars[1]]
                 stop = context_dic[eqn.invars[2]]
                 # New size is the difference
-                new_size = stop - start
+                # Negative indices count from the end and out of range
+                # bounds are clipped to the size of the array.
+                size = context_dic[eqn.invars[0]]
+                start = jnp.maximum(start + (start < 0) * size, 0)
+                stop = jnp.minimum(stop + (stop < 0) * size, size)
+                new_size = jnp.maximum(stop - start, 0)
                 context_dic[eqn.outvars[0]] = new_size
                 return False
 
-- 
2.43.0


From 8951fa964ef63c70bca53d285056533a66697f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:19 +0000
Subject: [PATCH 120/150] fix: terminal sampling losing samples that are post
 processed to the same value

---
 .../interpreters/terminal_sampling_interpreter.py    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py
index 517f742..5470103 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py
@@ -283,7 +283,8 @@ def terminal_sampling_evaluator(sampling_res_type):
                                 sampling_res += outvalues * v
                             elif sampling_res_type == "array":
                                 # sampling_res.extend(v*[outvalues[0]])
-                                sampling_res_dict[outvalues.item()] = v
+                                key = outvalues.item()
+                                sampling_res_dict[key] = sampling_res_dict.get(key, 0) + v
                                 # sampling_res.extend(v*[key])
                             elif sampling_res_type == "dict":
                                 key = outvalues
@@ -294,14 +295,16 @@ def terminal_sampling_evaluator(sampling_res_type):
                                         v = int(v.item())
                                     else:
                                         raise
-                                sampling_res[key.item()] = v
+                                key = key.item()
+                                sampling_res[key] = sampling_res.get(key, 0) + v
 
                         # If the user given function returned more than one
                         # value, the key is a tuple to be build up
                         elif sampling_res_type == "ev":
                             sampling_res += jnp.array(outvalues) * v
                         elif sampling_res_type == "array":
-                            sampling_res_dict[tuple(np.array(outvalues))] = v
+                            key = tuple(np.array(outvalues))
+                            sampling_res_dict[key] = sampling_res_dict.get(key, 0) + v
                         elif sampling_res_type == "dict":
                             if type(v) not in [int, float]:
                                 if v.dtype in [np.float64, np.float32]:
@@ -310,7 +313,8 @@ def terminal_sampling_evaluator(sampling_res_type):
                                     v = int(v.item())
                                 else:
                                     raise
-                            sampling_res[tuple(x.item() for x in outvalues)] = v
+                            key = tuple(x.item() for x in outvalues)
+                            sampling_res[key] = sampling_res.get(key, 0) + v
 
                     if sampling_res_type == "array":
                         keys = np.array(list(sampling_res_dict.keys()))
-- 
2.43.0


From 2faf93a3c9018a4bda7d626245d30daba4ab7de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:19 +0000
Subject: [PATCH 121/150] fix: sampling outside of a traced function ignoring
 the post processor

---
 src/qrisp/jasp/evaluation_tools/terminal_sampling.py | 9 ++++++---
 src/qrisp/jasp/program_control/sampling.py           | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/jasp/evaluation_tools/terminal_sampling.py b/src/qrisp/jasp/evaluation_tools/terminal_sampling.py
index 7be5417..aeb34c6 100644
--- a/src/qrisp/jasp/evaluation_tools/terminal_sampling.py
+++ b/src/qrisp/jasp/evaluation_tools/terminal_sampling.py
@@ -18,7 +18,7 @@
 from qrisp.jasp.jasp_expression import make_jaspr
 
 
-def terminal_sampling(func=None, shots=0):
+def terminal_sampling(func=None, shots=0, post_processor=None):
     """The ``terminal_sampling`` decorator performs a hybrid simulation and afterwards
     samples from the resulting quantum state.
     The idea behind this function is that it is very cheap for a classical simulator
@@ -45,6 +45,9 @@ def terminal_sampling(func=None, shots=0):
     shots : int, optional
         An integer specifying the amount of shots. The default is None, which
         will result in probabilities being returned.
+    post_processor : callable, optional
+        A function to apply to the decoded measurement results. By default no
+        post processing is applied.
 
     Returns
     -------
@@ -122,12 +125,12 @@ def terminal_sampling(func=None, shots=0):
         func = None
 
     if func is None:
-        return lambda x: terminal_sampling(x, shots)
+        return lambda x: terminal_sampling(x, shots, post_processor)
 
     def tracing_function(*args):
         from qrisp.jasp.program_control import expectation_value
 
-        return expectation_value(func, shots, return_dict=True)(*args)
+        return expectation_value(func, shots, return_dict=True, post_processor=post_processor)(*args)
 
     def return_function(*args):
         from qrisp.jasp import simulate_jaspr
diff --git a/src/qrisp/jasp/program_control/sampling.py b/src/qrisp/jasp/program_control/sampling.py
index b6582a4..ca36ecd 100644
--- a/src/qrisp/jasp/program_control/sampling.py
+++ b/src/qrisp/jasp/program_control/sampling.py
@@ -170,6 +170,8 @@ def sample(state_prep=None, shots=0, post_processor=None):
     if state_prep is None:
         return lambda x: sample(x, shots, post_processor=post_processor)
 
+    user_post_processor = post_processor
+
     if post_processor is None:
 
         def identity(*args):
@@ -283,7 +285,7 @@ def sample(state_prep=None, shots=0, post_processor=None):
         if check_for_tracing_mode():
             return sampling_eval_function(*args, tracerized_shots=shots)
         else:
-            return terminal_sampling(state_prep, shots)(*args)
+            return terminal_sampling(state_prep, shots, user_post_processor)(*args)
 
     return return_function
 
-- 
2.43.0


From 5f263f856bbd68cc9791cdbf0b3817bfdf11c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:42:16 +0000
Subject: [PATCH 122/150] fix: deletion of variables returned by loops and
 conditionals of traced programs

---
 .../jasp/program_control/prefix_control.py    | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/jasp/program_control/prefix_control.py b/src/qrisp/jasp/program_control/prefix_control.py
index 60cc78f..76242fe 100644
--- a/src/qrisp/jasp/program_control/prefix_control.py
+++ b/src/qrisp/jasp/program_control/prefix_control.py
@@ -31,6 +31,15 @@ def returns_quantum_state(jaxpr):
     return len(outvars) > 0 and isinstance(outvars[-1].aval, AbstractQuantumState)
 
 
+def register_results(qs, res):
+    # The QuantumVariables within the result went through a flatten/unflattening
+    # cycle. The unflattening creates a new QuantumVariable object, which is not
+    # yet registered in any QuantumSession.
+    for qv in recursive_qv_search(res):
+        qs.register_qv(qv, None)
+    return res
+
+
 def q_while_loop(cond_fun, body_fun, init_val):
     """Jasp compatible version of
     `jax.lax.while_loop <https://jax.readthedocs.io/en/latest/_autosummary/jax.lax.while_loop.html#jax.lax.while_loop>`_.
@@ -144,14 +153,14 @@ def q_while_loop(cond_fun, body_fun, init_val):
             eqn.invars.pop(i + eqn.params["cond_nconsts"])
             body_jaxpr.jaxpr.invars.pop(i)
             eqn.params["body_nconsts"] -= 1
-            return while_res[0]
+            return register_results(qs, while_res[0])
 
     from qrisp import Jaspr
 
     eqn.params["body_jaxpr"] = Jaspr.from_cache(body_jaxpr)
 
     qs.abs_qst = while_res[1]
-    return while_res[0]
+    return register_results(qs, while_res[0])
 
 
 def q_fori_loop(lower, upper, body_fun, init_val):
@@ -351,7 +360,7 @@ def q_cond(pred, true_fun, false_fun, *operands):
         eqn.invars.pop(-1)
         false_jaxpr.jaxpr.invars.pop(-1)
         true_jaxpr.jaxpr.invars.pop(-1)
-        return cond_res[0]
+        return register_results(qs, cond_res[0])
 
     eqn.params["branches"] = (
         Jaspr.from_cache(false_jaxpr),
@@ -360,7 +369,7 @@ def q_cond(pred, true_fun, false_fun, *operands):
 
     qs.abs_qst = cond_res[-1]
 
-    return cond_res[0]
+    return register_results(qs, cond_res[0])
 
 
 # Switch implementation for classical index
@@ -471,13 +480,13 @@ def _q_switch_c(index, branches, *operands):
     if not any(returns_quantum_state(branch_jaxpr) for branch_jaxpr in branch_jaxprs):
         eqn.invars.pop(-1)
         [branch_jaxpr.jaxpr.invars.pop(-1) for branch_jaxpr in branch_jaxprs]
-        return switch_res[0]
+        return register_results(qs, switch_res[0])
 
     eqn.params["branches"] = tuple([Jaspr.from_cache(branch_jaxpr) for branch_jaxpr in branch_jaxprs])
 
     qs.abs_qst = switch_res[-1]
 
-    return switch_res[0]
+    return register_results(qs, switch_res[0])
 
 
 def q_switch(index, branches, *operands, branch_amount=None, method="auto"):
-- 
2.43.0


From 12865e5ce95e634fb21bf4cf1d445f61ab36a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:30 +0000
Subject: [PATCH 123/150] fix: compilation of gates whose definition depends on
 a subset of the parameters

---
 .../jasp/interpreter_tools/interpreters/catalyst_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py
index a2a7557..9c5fe04 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py
@@ -319,7 +319,7 @@ def exec_qrisp_op(op, catalyst_qbs, param_dict):
 
         jax_values = list(param_dict.values())
 
-        param_list = [lambdify(greek_letters[: len(op.abstract_params)], expr)(*jax_values) for expr in op.params]
+        param_list = [lambdify(list(param_dict.keys()), expr)(*jax_values) for expr in op.params]
 
         if op_name == "sx":
             op_name = "rx"
-- 
2.43.0


From 2ac0a517985fb93a19f6b1670e5e83778a8f0e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:37 +0000
Subject: [PATCH 124/150] fix: sx_dg applied the SX gate instead of its adjoint

---
 src/qrisp/core/gate_application_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 7cbb7b3..9e1533f 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -1049,7 +1049,7 @@ def sx_dg(qubits):
         The Qubit to perform the daggered SX gate on.
 
     """
-    append_operation(std_ops.SXDGGate().inverse(), [qubits])
+    append_operation(std_ops.SXDGGate(), [qubits])
     return qubits
 
 
-- 
2.43.0


From 7ab6293d450c1d3909b77c6cfb9add8a2eb6c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:24:43 +0000
Subject: [PATCH 125/150] fix: Stim conversion ignored the control state of
 classically conditioned gates

---
 src/qrisp/interface/converter/stim_converter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/interface/converter/stim_converter.py b/src/qrisp/interface/converter/stim_converter.py
index ae6d3fb..2d70afe 100644
--- a/src/qrisp/interface/converter/stim_converter.py
+++ b/src/qrisp/interface/converter/stim_converter.py
@@ -360,6 +360,10 @@ def qrisp_to_stim(
 
             # Apply the conditional gate for each target qubit
             for q_idx in qubit_indices:
+                # Stim conditions fire on 1. A gate conditioned on 0 is applied
+                # unconditionally and undone if the measurement result is 1.
+                if op.ctrl_state[0] == "0":
+                    stim_circuit.append(base_op_name.upper(), [q_idx])
                 stim_circuit.append(stim_gate, [rec_target, q_idx])
 
         # Unknown gate
-- 
2.43.0


From 99f1cca7082f42b5a41fc5b56907e4421e9b48d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:24:43 +0000
Subject: [PATCH 126/150] fix: detector indices of Stim circuits with parities
 over no measurement

---
 src/qrisp/interface/converter/stim_converter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/interface/converter/stim_converter.py b/src/qrisp/interface/converter/stim_converter.py
index 2d70afe..3ef811a 100644
--- a/src/qrisp/interface/converter/stim_converter.py
+++ b/src/qrisp/interface/converter/stim_converter.py
@@ -290,9 +290,8 @@ def qrisp_to_stim(
                 # Populate observable_map - key is ParityHandle (hashable by clbits and expectation)
                 observable_map[parity_handle] = new_stim_idx
 
-                # Emit instruction if there are targets
-                if stim_targets:
-                    stim_circuit.append("OBSERVABLE_INCLUDE", stim_targets, [new_stim_idx])
+                # Emit instruction (a parity without targets also occupies an index)
+                stim_circuit.append("OBSERVABLE_INCLUDE", stim_targets, [new_stim_idx])
 
             else:
                 # --- Detector Mode ---
@@ -303,9 +302,8 @@ def qrisp_to_stim(
                 # Populate detector_map - key is ParityHandle (hashable by clbits and expectation)
                 detector_map[parity_handle] = detector_counter
 
-                # Emit DETECTOR
-                if stim_targets:
-                    stim_circuit.append("DETECTOR", stim_targets, op.params)
+                # Emit DETECTOR (a parity without targets also occupies an index)
+                stim_circuit.append("DETECTOR", stim_targets, op.params)
 
                 detector_counter += 1
 
-- 
2.43.0


From d532359d5405d642208ef2f57fbef79cd48ca1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:24:43 +0000
Subject: [PATCH 127/150] fix: type of scalar detector handles in return order

---
 src/qrisp/jasp/evaluation_tools/stim_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/jasp/evaluation_tools/stim_extraction.py b/src/qrisp/jasp/evaluation_tools/stim_extraction.py
index 2fcf39c..9d6e750 100644
--- a/src/qrisp/jasp/evaluation_tools/stim_extraction.py
+++ b/src/qrisp/jasp/evaluation_tools/stim_extraction.py
@@ -585,7 +585,7 @@ def extract_stim(func=None, *, detector_order="chronological"):
                             if isinstance(val, np.ndarray) and type(val) == StimDetectorHandles:
                                 # Map old indices to new indices
                                 old_indices = val.view(np.ndarray)
-                                new_indices = inverse_perm[old_indices]
+                                new_indices = np.asarray(inverse_perm[old_indices])
                                 new_result[i] = new_indices.reshape(val.shape).view(StimDetectorHandles)
 
                 # Reconstruct the original PyTree structure from the flat results
-- 
2.43.0


From 95aa3b83e464a9ba12256965e4aee1bf15c5549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:30:41 +0000
Subject: [PATCH 128/150] fix: indexing, slicing and updating of measurement
 result arrays in circuit extraction

---
 .../interpreters/qc_extraction_interpreter.py | 159 ++++++++----------
 1 file changed, 67 insertions(+), 92 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/qc_extraction_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/qc_extraction_interpreter.py
index c60fc44..7195eed 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/qc_extraction_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/qc_extraction_interpreter.py
@@ -64,6 +64,7 @@ This module provides three key classes/concepts:
 
 """
 
+import jax.numpy as jnp
 import numpy as np
 
 # =============================================================================
@@ -396,38 +397,6 @@ def apply_array_primitive(prim_name, params, invalues):
         dimensions = params.get("dimensions", None)
         result = np.squeeze(encoded[0], axis=dimensions)
 
-    elif prim_name == "slice":
-        start_indices = params["start_indices"]
-        limit_indices = params["limit_indices"]
-        slices = tuple(slice(s, e) for s, e in zip(start_indices, limit_indices))
-        result = encoded[0][slices]
-
-    elif prim_name == "dynamic_slice":
-        # Start indices come from invalues[1:]
-        start_indices = [
-            int(encoded[i]) if np.ndim(encoded[i]) == 0 else int(encoded[i].flat[0]) for i in range(1, len(encoded))
-        ]
-        slice_sizes = params["slice_sizes"]
-        slices = tuple(slice(s, s + sz) for s, sz in zip(start_indices, slice_sizes))
-        result = encoded[0][slices]
-
-    elif prim_name == "gather":
-        # Simple indexing case
-        indices = encoded[1]
-        if hasattr(indices, "item"):
-            idx = indices.item()
-            if isinstance(idx, (int, np.integer)):
-                idx = int(idx)
-        elif np.ndim(indices) == 0:
-            idx = int(indices) if isinstance(indices, (int, np.integer, np.ndarray)) else indices
-        else:
-            idx = int(indices[0]) if len(indices) == 1 else indices
-
-        if isinstance(idx, (int, np.integer)):
-            result = encoded[0].flat[idx]
-        else:
-            result = encoded[0][idx]
-
     elif prim_name == "reshape":
         new_sizes = params.get("new_sizes", params.get("dimensions", None))
         if new_sizes is not None:
@@ -446,21 +415,6 @@ def apply_array_primitive(prim_name, params, invalues):
         for dim in dimensions:
             result = np.flip(result, axis=dim)
 
-    elif prim_name == "dynamic_update_slice":
-        # dynamic_update_slice(operand, update, start_indices)
-        # Updates a slice of operand starting at start_indices with the values from update
-        operand = encoded[0]
-        update = encoded[1]
-        # Start indices come from remaining invalues (already encoded)
-        start_indices = tuple(
-            int(encoded[i]) if np.ndim(encoded[i]) == 0 else int(encoded[i].flat[0]) for i in range(2, len(encoded))
-        )
-
-        # Create a copy and update the slice
-        result = operand.copy()
-        slices = tuple(slice(s, s + u) for s, u in zip(start_indices, update.shape))
-        result[slices] = update
-
     elif prim_name == "select_n":
         # select_n(cond, *cases) - selects from cases based on cond values
         # cond[i] == j means select cases[j][i]
@@ -492,6 +446,49 @@ def apply_array_primitive(prim_name, params, invalues):
         return MeasurementArray(result)
 
 
+def move_array_entries(primitive, params, data, indices):
+    """Apply a JAX primitive that only moves array entries to measurement data.
+
+    The primitive itself is evaluated on the positions of the entries, such that
+    strides, index dimensions and the treatment of the array bounds agree with JAX.
+
+    Parameters
+    ----------
+    primitive : jax.extend.core.Primitive
+        The primitive to evaluate.
+    params : dict
+        Parameters of the JAX primitive.
+    data : dict[int, Any]
+        The operands that hold entries, keyed by their position in the operand list.
+    indices : dict[int, Any]
+        The remaining operands, keyed by their position in the operand list.
+
+    Returns
+    -------
+    MeasurementArray or scalar
+        - MeasurementArray for array results
+        - Scalar (Clbit, bool, ProcessedMeasurement, ParityHandle) for 0-d results
+
+    """
+    entries = []
+    operands = dict(indices)
+    for i, val in data.items():
+        val = np.asarray(to_object_array(val), dtype=object)
+        operands[i] = np.arange(len(entries), len(entries) + val.size).reshape(val.shape)
+        entries.extend(val.flat)
+
+    positions = np.asarray(primitive.bind(*[jnp.asarray(operands[i]) for i in range(len(operands))], **params))
+
+    result = np.empty(positions.shape, dtype=object)
+    for i, pos in np.ndenumerate(positions):
+        # Positions outside of the array are filled by JAX
+        result[i] = entries[pos] if 0 <= pos < len(entries) else ProcessedMeasurement()
+
+    if result.ndim == 0:
+        return result.item()
+    return MeasurementArray(result)
+
+
 def resolve_measurement_arrays(value):
     """Recursively resolve MeasurementArrays to numpy arrays with dtype=object.
 
@@ -824,13 +821,9 @@ def make_qc_extraction_eqn_evaluator(qc):
             "broadcast_in_dim",
             "concatenate",
             "squeeze",
-            "slice",
-            "dynamic_slice",
-            "gather",
             "reshape",
             "transpose",
             "rev",
-            "dynamic_update_slice",
             "select_n",
         ):
             # Check if any input contains measurement data
@@ -841,6 +834,23 @@ def make_qc_extraction_eqn_evaluator(qc):
                     return
             return True
 
+        elif prim_name in ("slice", "dynamic_slice", "gather", "dynamic_update_slice"):
+            # Only the leading operands hold entries, the others are indices
+            num_data = 2 if prim_name == "dynamic_update_slice" else 1
+            if any(contains_measurement_data(v) for v in invalues[:num_data]):
+                data = dict(enumerate(invalues[:num_data]))
+                indices = dict(enumerate(invalues[num_data:], start=num_data))
+                if any(contains_measurement_data(v) for v in indices.values()):
+                    # The selected entry depends on a measurement result
+                    shape = eqn.outvars[0].aval.shape
+                    result = MeasurementArray(np.empty(shape, dtype=object)).mark_as_processed()
+                    insert_outvalues(eqn, context_dic, result if shape else ProcessedMeasurement())
+                    return
+                insert_outvalues(eqn, context_dic, move_array_entries(eqn.primitive, eqn.params, data, indices))
+                return
+            if not any(contains_measurement_data(v) for v in invalues):
+                return True
+
         elif prim_name == "split":
             # split: Split an array into multiple sub-arrays
             # This is a multiple-result primitive, so we need to handle it specially
@@ -878,53 +888,18 @@ def make_qc_extraction_eqn_evaluator(qc):
             # - indices: Where to place the updates
             # - updates: The values to insert
 
-            operand = invalues[0]
-            indices = invalues[1]
-            updates = invalues[2] if len(invalues) > 2 else None
+            operand, indices, updates = invalues
 
             # Unwrap updates if it's a single-element list
             if isinstance(updates, list) and len(updates) == 1:
                 updates = updates[0]
 
-            # Helper to get index from various index formats
-            def get_scatter_index(indices):
-                if hasattr(indices, "item"):
-                    return int(indices.item())
-                elif hasattr(indices, "__len__") and len(indices) == 1:
-                    return int(indices[0])
-                else:
-                    return int(indices)
-
             # Check if we're working with measurement data
-            if isinstance(operand, MeasurementArray):
-                idx = get_scatter_index(indices)
-
-                # Create a copy and update directly (object array)
-                result = operand.copy()
-                result[idx] = updates
-                insert_outvalues(eqn, context_dic, result)
-                return
-
-            elif contains_measurement_data(updates):
-                # Operand is not a MeasurementArray but updates contains measurement data
-                # This happens when building an array from measurements in a loop
-
-                # Get the shape of the operand
-                if hasattr(operand, "shape"):
-                    size = int(np.prod(operand.shape))
-                elif hasattr(operand, "__len__"):
-                    size = len(operand)
-                else:
-                    size = 1
-
-                # Initialize MeasurementArray with False values
-                new_data = np.array([False] * size, dtype=object)
-
-                # Set the update at the given index
-                idx = get_scatter_index(indices)
-                new_data[idx] = updates
-
-                result = MeasurementArray(new_data)
+            if isinstance(operand, MeasurementArray) or (
+                contains_measurement_data(updates) and not isinstance(operand, ProcessedMeasurement)
+            ):
+                params = dict(eqn.params, update_jaxpr=None, update_consts=())
+                result = move_array_entries(eqn.primitive, params, {0: operand, 2: updates}, {1: indices})
                 insert_outvalues(eqn, context_dic, result)
                 return
 
-- 
2.43.0


From 7be3c3cde583c319337c5a6e7a07cab4919dadbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:30:41 +0000
Subject: [PATCH 129/150] fix: expectation of automatically found detectors
 with odd parity

---
 src/qrisp/misc/stim_tools/find_detectors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/misc/stim_tools/find_detectors.py b/src/qrisp/misc/stim_tools/find_detectors.py
index d547704..56133f7 100644
--- a/src/qrisp/misc/stim_tools/find_detectors.py
+++ b/src/qrisp/misc/stim_tools/find_detectors.py
@@ -625,7 +625,12 @@ def find_detectors(func=None, *, return_circuits=False):
 
             # --- 2b. Simulate noiseless circuit to determine detector expectations ---
             # Use stim's built-in method to remove all noise processes
-            expectations = annotated.without_noise().compile_detector_sampler().sample(shots=1)[0].tolist()
+            # (the detector sampler of stim reports deviations from the noiseless
+            # parity, hence the parity is evaluated on a noiseless record)
+            noiseless = annotated.without_noise()
+            record = noiseless.reference_sample()
+            converter = noiseless.compile_m2d_converter(skip_reference_sample=True)
+            expectations = converter.convert(measurements=record[np.newaxis], append_observables=False)[0].tolist()
 
             # --- 3. Call real function & map analysis Clbits to traced booleans ---
             real_returns = fn(*args, **kwargs)
-- 
2.43.0


From 443688c48e399b431d9e289d2ee2a714334abc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:35:27 +0000
Subject: [PATCH 130/150] fix: detectors of circuits that reset qubits after
 gates of the same round

---
 src/qrisp/misc/stim_tools/find_detectors.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/misc/stim_tools/find_detectors.py b/src/qrisp/misc/stim_tools/find_detectors.py
index 56133f7..d9d30a1 100644
--- a/src/qrisp/misc/stim_tools/find_detectors.py
+++ b/src/qrisp/misc/stim_tools/find_detectors.py
@@ -123,15 +123,27 @@ def _prepare_for_tqecd(stim_circ):
     # Split instructions into rounds.
     # A round boundary occurs when we've accumulated measurements and the
     # next instruction is no longer a measurement.
+    # Fragments start with their resets. A qubit that is reset after it took part
+    # in a gate of the same round is therefore continued on a fresh qubit.
     rounds, cur = [], {"R": [], "G": [], "M": []}
+    carrier = {q: q for q in all_qubits}
+    used = set()
     for inst in stim_circ.flattened():
         if inst.name == "TICK":
             continue
         if cur["M"] and inst.name not in _MEASUREMENT_OPS:
             rounds.append(cur)
             cur = {"R": [], "G": [], "M": []}
+            used = set()
         key = "R" if inst.name in _RESET_OPS else "M" if inst.name in _MEASUREMENT_OPS else "G"
-        cur[key].append(inst)
+        for q in _tvals(inst):
+            if key == "R" and carrier[q] in used:
+                carrier[q] = max(all_qubits) + 1
+                all_qubits.add(carrier[q])
+        targets = [carrier[q] for q in _tvals(inst)]
+        if key == "G":
+            used.update(targets)
+        cur[key].append(stim.CircuitInstruction(inst.name, targets, inst.gate_args_copy()))
     if cur["M"]:
         rounds.append(cur)
 
-- 
2.43.0


From e15a09733a2f1fc0e045c079dc115e482c5df0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:58 +0000
Subject: [PATCH 131/150] fix: product of QuantumModulus with wide BigInteger
 modulus

---
 .../arithmetic/jasp_arithmetic/jasp_montgomery.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_montgomery.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_montgomery.py
index 92add34..31c5685 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_montgomery.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_montgomery.py
@@ -339,7 +339,9 @@ def qq_montgomery_multiply_modulus(x: QuantumModulus, y: QuantumModulus):
     # QuantumFloat accepts traced sizes, and jdecoder handles a traced
     # Montgomery shift (res.m) via BigInteger arithmetic.
     n = smallest_power_of_two(N)
-    m = smallest_power_of_two((N - 1) ** 2 + 1) - n
+    # The square of a BigInteger modulus might not fit into the width of the modulus
+    N_wide = N.get_larger() if isinstance(N, BigInteger) else N
+    m = smallest_power_of_two((N_wide - 1) ** 2 + 1) - n
 
     if check_for_tracing_mode():
         xrange = jrange
-- 
2.43.0


From 3014ad90b23a44181eff1d63df8096b94f553c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:16:31 +0000
Subject: [PATCH 132/150] fix: detectors of circuits that measure a qubit
 repeatedly in a row

---
 src/qrisp/misc/stim_tools/find_detectors.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qrisp/misc/stim_tools/find_detectors.py b/src/qrisp/misc/stim_tools/find_detectors.py
index d9d30a1..1f21ad4 100644
--- a/src/qrisp/misc/stim_tools/find_detectors.py
+++ b/src/qrisp/misc/stim_tools/find_detectors.py
@@ -143,6 +143,16 @@ def _prepare_for_tqecd(stim_circ):
         targets = [carrier[q] for q in _tvals(inst)]
         if key == "G":
             used.update(targets)
+        if key == "M":
+            # a moment measures every qubit at most once, a repeated
+            # measurement hence starts another round
+            for q in targets:
+                if q in {t.value for m in cur["M"] for t in m.targets_copy()}:
+                    rounds.append(cur)
+                    cur = {"R": [], "G": [], "M": []}
+                    used = set()
+                cur["M"].append(stim.CircuitInstruction(inst.name, [q], inst.gate_args_copy()))
+            continue
         cur[key].append(stim.CircuitInstruction(inst.name, targets, inst.gate_args_copy()))
     if cur["M"]:
         rounds.append(cur)
-- 
2.43.0


From 71402bc186242906c168358d7f9be7ee4afbf468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:59:35 +0000
Subject: [PATCH 133/150] fix: order of the given base in order finding

---
 src/qrisp/algorithms/shor/shors_algorithm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/algorithms/shor/shors_algorithm.py b/src/qrisp/algorithms/shor/shors_algorithm.py
index c12adaa..9224c9e 100644
--- a/src/qrisp/algorithms/shor/shors_algorithm.py
+++ b/src/qrisp/algorithms/shor/shors_algorithm.py
@@ -76,10 +76,11 @@ def find_order(a, N, inpl_adder=None, mes_kwargs={}):
     qg[:] = 1
     qpe_res = QuantumFloat(2 * qg.size + 1, exponent=-(2 * qg.size + 1))
     h(qpe_res)
+    factor = a
     for i in range(len(qpe_res)):
         with control(qpe_res[i]):
-            qg *= a
-            a = (a * a) % N
+            qg *= factor
+            factor = (factor * factor) % N
     QFT(qpe_res, inv=True, inpl_adder=inpl_adder)
 
     mes_res = qpe_res.get_measurement(**mes_kwargs)
-- 
2.43.0


From 1046d159ffc922b83c11d36c1bae82a9bee6a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:59:46 +0000
Subject: [PATCH 134/150] fix: outcomes of several ancillas in traced Lanczos
 expectation values

---
 src/qrisp/algorithms/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/lanczos.py b/src/qrisp/algorithms/lanczos.py
index 770991b..80b5665 100644
--- a/src/qrisp/algorithms/lanczos.py
+++ b/src/qrisp/algorithms/lanczos.py
@@ -228,7 +228,7 @@ def lanczos_expvals(
         @jax.jit
         def post_processor(*args):
             """Maps the 'all-zeros' outcome to 1 and any other outcome to -1."""
-            return jnp.where(jnp.all(jnp.array(args)) == 0, 1, -1)
+            return jnp.where(jnp.all(jnp.array(args) == 0), 1, -1)
 
         ev_even = expectation_value(lanczos_even, shots=mes_kwargs["shots"], post_processor=post_processor)
         ev_odd = expectation_value(lanczos_odd, shots=mes_kwargs["shots"], post_processor=post_processor)
-- 
2.43.0


From 60d168ef56dedf5168e1ac8183fedb92584f5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:59:46 +0000
Subject: [PATCH 135/150] fix: reduction of generalized eigenvalue problems
 with non-diagonal overlaps

---
 src/qrisp/algorithms/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/lanczos.py b/src/qrisp/algorithms/lanczos.py
index 80b5665..6c87576 100644
--- a/src/qrisp/algorithms/lanczos.py
+++ b/src/qrisp/algorithms/lanczos.py
@@ -399,7 +399,7 @@ def generalized_eigh(A: "ArrayLike", B: "ArrayLike") -> Tuple["ArrayLike", "Arra
     # Compute L_inv * A * L_inv_T.
     # Use solve_triangular for efficiency and numerical stability instead of explicit inverse.
     A_prime = jax.scipy.linalg.solve_triangular(L, A, lower=True)
-    A_prime = jax.scipy.linalg.solve_triangular(L.T, A_prime.T, lower=False).T
+    A_prime = jax.scipy.linalg.solve_triangular(L, A_prime.T, lower=True).T
 
     # Solve the standard eigenvalue problem for A'
     eigvals, eigvecs_prime = jax.scipy.linalg.eigh(A_prime)
-- 
2.43.0


From ec07f91c1d309faeb4fd462f2ad537c510a22ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:59:46 +0000
Subject: [PATCH 136/150] fix: eigenvectors of generalized eigenvalue problems

---
 src/qrisp/algorithms/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/lanczos.py b/src/qrisp/algorithms/lanczos.py
index 6c87576..5d06fae 100644
--- a/src/qrisp/algorithms/lanczos.py
+++ b/src/qrisp/algorithms/lanczos.py
@@ -408,7 +408,7 @@ def generalized_eigh(A: "ArrayLike", B: "ArrayLike") -> Tuple["ArrayLike", "Arra
     eigvecs = jax.scipy.linalg.solve_triangular(L.T, eigvecs_prime, lower=False)
 
     # Normalize eigenvectors if needed (optional)
-    eigvecs = eigvals / jnp.linalg.norm(eigvecs, axis=0)
+    eigvecs = eigvecs / jnp.linalg.norm(eigvecs, axis=0)
 
     return eigvals, eigvecs
 
-- 
2.43.0


From 5fac3c086d75e9678c9ff7d79a366e0786c0f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:03:08 +0000
Subject: [PATCH 137/150] fix: integration leaves the list of variables of the
 caller unchanged

---
 src/qrisp/algorithms/qmci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/qmci.py b/src/qrisp/algorithms/qmci.py
index c5887ff..7f55320 100644
--- a/src/qrisp/algorithms/qmci.py
+++ b/src/qrisp/algorithms/qmci.py
@@ -97,7 +97,7 @@ def QMCI(qargs, function, distribution=None, mes_kwargs={}):
     for arg in qargs:
         V0 *= 2 ** (arg.size + arg.exponent)
 
-    qargs.append(QuantumBool())
+    qargs = [*qargs, QuantumBool()]
 
     @auto_uncompute
     def state_function(*args):
-- 
2.43.0


From d0bc3faa384860a77077515a379424d00d5c2126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:05:44 +0000
Subject: [PATCH 138/150] fix: Lanczos moments of block encodings without
 ancillas

---
 src/qrisp/algorithms/lanczos.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/algorithms/lanczos.py b/src/qrisp/algorithms/lanczos.py
index 5d06fae..c906c26 100644
--- a/src/qrisp/algorithms/lanczos.py
+++ b/src/qrisp/algorithms/lanczos.py
@@ -223,6 +223,9 @@ def lanczos_expvals(
 
     BE = H if isinstance(H, BlockEncoding) else BlockEncoding.from_operator(H)
 
+    # Without ancillas, the all-zeros outcome of the even moments is certain
+    even_certain = len(BE.qubitization()._anc_templates) == 0
+
     if check_for_tracing_mode():
 
         @jax.jit
@@ -235,7 +238,9 @@ def lanczos_expvals(
         expvals = jnp.zeros(2 * D)
 
         for k in range(0, 2 * D):
-            if k % 2 == 0:
+            if k % 2 == 0 and even_certain:
+                val = 1.0
+            elif k % 2 == 0:
                 val = ev_even(BE, k, operand_prep)
             else:
                 val = ev_odd(BE, k, operand_prep)
@@ -244,7 +249,9 @@ def lanczos_expvals(
     else:
         expvals = np.zeros(2 * D)
         for k in range(0, 2 * D):
-            if k % 2 == 0:
+            if k % 2 == 0 and even_certain:
+                meas = {(): 1.0}
+            elif k % 2 == 0:
                 qargs = lanczos_even(BE, k, operand_prep)
                 meas = multi_measurement(list(qargs), **mes_kwargs)
             else:
-- 
2.43.0


From 29e2b6ab1c9e5fdcbce94f0245eb503b3ae483bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:21:19 +0000
Subject: [PATCH 139/150] fix: unary state preparation with vanishing trailing
 coefficients

---
 src/qrisp/algorithms/cks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/algorithms/cks.py b/src/qrisp/algorithms/cks.py
index 782b840..6e5edc4 100644
--- a/src/qrisp/algorithms/cks.py
+++ b/src/qrisp/algorithms/cks.py
@@ -162,10 +162,10 @@ def _unary_angles(coeffs: "ArrayLike") -> "ArrayLike":
     """
     alpha = jnp.sqrt(coeffs)  # coeffs need not to be normalized since unary angles only depend on their ratio
     phi = jnp.zeros(len(alpha) - 1)
-    phi = phi.at[-1].set(jnp.arctan(alpha[-1] / alpha[-2]))  # Last angle is determined by ratio of final two amplitudes
+    phi = phi.at[-1].set(jnp.arctan2(alpha[-1], alpha[-2]))  # Last angle is determined by ratio of final two amplitudes
     for i in range(len(phi) - 2, -1, -1):
         phi = phi.at[i].set(
-            jnp.arctan(alpha[i + 1] / alpha[i] / jnp.cos(phi[i + 1]))
+            jnp.arctan2(alpha[i + 1] / jnp.cos(phi[i + 1]), alpha[i])
         )  # Recursively compute previous rotation angles
     return 2 * phi  # Compensate for factor 1/2 in ry
 
-- 
2.43.0


From c0f15f6e69111d166155f11c93d983d02408dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:46:09 +0000
Subject: [PATCH 140/150] fix: FOQCS-LCU preparation of Heisenberg models on a
 single qubit

---
 .../constructors/foqcs_lcu/foqcs_preps.py     | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/qrisp/block_encodings/constructors/foqcs_lcu/foqcs_preps.py b/src/qrisp/block_encodings/constructors/foqcs_lcu/foqcs_preps.py
index 5743308..c5603a3 100644
--- a/src/qrisp/block_encodings/constructors/foqcs_lcu/foqcs_preps.py
+++ b/src/qrisp/block_encodings/constructors/foqcs_lcu/foqcs_preps.py
@@ -133,18 +133,20 @@ def foqcs_prep_heisenberg(
     cx(prep_qv[0], prep_qv[lh1])  # from gx
     cx(prep_qv[1], prep_qv[lh1])  # from gy
     cx(prep_qv[2], prep_qv[lh2])  # from gz
-    # 2 parallel Gamma gates
-    # Ref: Fig. 2(a) defines Gamma(theta); Fig. 6 uses Gamma(theta_{n-1})
-    # as part of the compact Heisenberg PREP circuit.
-    theta = 2 * np.acos(np.sqrt(1 / (L - 1 + 1)))
-    _gamma_gate(prep_qv[lh1 - 1], prep_qv[lh1], theta)
-    _gamma_gate(prep_qv[lh2 - 1], prep_qv[lh2], theta)
-    # 3 specific CNOTs
-    # Ref: Table II: Jx/Jy/Jz nearest-neighbor terms map to two-excitation
-    # patterns |2^l + 2^{l+1}> in the relevant activation register(s).
-    cx(prep_qv[3], prep_qv[lh1 - 1])  # from Jx
-    cx(prep_qv[4], prep_qv[lh1 - 1])  # from Jy
-    cx(prep_qv[5], prep_qv[lh2 - 1])  # from Jz
+    # A single site has neither other sites nor neighbors
+    if L > 1:
+        # 2 parallel Gamma gates
+        # Ref: Fig. 2(a) defines Gamma(theta); Fig. 6 uses Gamma(theta_{n-1})
+        # as part of the compact Heisenberg PREP circuit.
+        theta = 2 * np.acos(np.sqrt(1 / (L - 1 + 1)))
+        _gamma_gate(prep_qv[lh1 - 1], prep_qv[lh1], theta)
+        _gamma_gate(prep_qv[lh2 - 1], prep_qv[lh2], theta)
+        # 3 specific CNOTs
+        # Ref: Table II: Jx/Jy/Jz nearest-neighbor terms map to two-excitation
+        # patterns |2^l + 2^{l+1}> in the relevant activation register(s).
+        cx(prep_qv[3], prep_qv[lh1 - 1])  # from Jx
+        cx(prep_qv[4], prep_qv[lh1 - 1])  # from Jy
+        cx(prep_qv[5], prep_qv[lh2 - 1])  # from Jz
     # 2 parallel delta gates
     # Ref: Fig. 2(d) defines the recursive Delta_n subcircuit used to prepare
     # the Dicke-state structure appearing in Fig. 6.
-- 
2.43.0


From d8e1b100287150c880eb40822e1d9937ecaa1485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:26:20 +0000
Subject: [PATCH 141/150] fix: keep unsigned integers unsigned when lowering an
 exported module

The conversion to signless integers ran before the legalization to linalg,
so comparisons, divisions, shifts and conversions of unsigned values were
lowered to the signed operations.
---
 src/qrisp/jasp/mlir/jaxpr_lowering.py | 8 +++++---
 src/qrisp/jasp/mlir/mlir_emission.py  | 4 ++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/jasp/mlir/jaxpr_lowering.py b/src/qrisp/jasp/mlir/jaxpr_lowering.py
index 23fd6d7..e4d4127 100644
--- a/src/qrisp/jasp/mlir/jaxpr_lowering.py
+++ b/src/qrisp/jasp/mlir/jaxpr_lowering.py
@@ -212,8 +212,8 @@ def lower_jaxpr_to_linalg_MLIR(jaxpr, lowering_rules):
     The pipeline applied:
 
     1. symbol-dce: removes unused private shadow functions that JAX emits
-    2. stablehlo-convert-to-signless: converts to signless integers
-    3. stablehlo-legalize-to-linalg: converts arithmetic/data ops to linalg
+    2. stablehlo-legalize-to-linalg: converts arithmetic/data ops to linalg
+    3. stablehlo-convert-to-signless: converts to signless integers
 
     Parameters
     ----------
@@ -246,7 +246,9 @@ def lower_jaxpr_to_linalg_MLIR(jaxpr, lowering_rules):
         # symbol-dce removes unused private shadow functions that JAX emits.
         # stablehlo-legalize-to-linalg converts arithmetic/data ops to linalg.
         # stablehlo control-flow ops (case, while) are left untouched here.
-        pipeline = "builtin.module(symbol-dce,stablehlo-convert-to-signless,stablehlo-legalize-to-linalg)"
+        # The conversion to signless integers comes last because the legalization
+        # needs the signedness to pick the signed or unsigned arith operations.
+        pipeline = "builtin.module(symbol-dce,stablehlo-legalize-to-linalg,stablehlo-convert-to-signless)"
 
         pm = passmanager.PassManager.parse(pipeline)
         # Disable verifier: stablehlo.case carries !jasp.QuantumState which
diff --git a/src/qrisp/jasp/mlir/mlir_emission.py b/src/qrisp/jasp/mlir/mlir_emission.py
index 17973cf..3e0dbb8 100644
--- a/src/qrisp/jasp/mlir/mlir_emission.py
+++ b/src/qrisp/jasp/mlir/mlir_emission.py
@@ -26,6 +26,7 @@ Three key steps happen here:
 """
 
 from xdsl.dialects import builtin
+from xdsl.transforms.reconcile_unrealized_casts import ReconcileUnrealizedCastsPass
 
 from qrisp.jasp.interpreter_tools.interpreters.composite_gate_interpreter import decompose_composite_gates
 from qrisp.jasp.jasp_expression import Jaspr
@@ -69,6 +70,9 @@ def jaspr_to_mlir(jaspr: Jaspr, lower_stableHLO=False) -> builtin.ModuleOp:
     # (e.g., verbose scalar ``linalg.generic`` chains produced by
     # ``stablehlo-legalize-to-linalg``).
     if lower_stableHLO:
+        # The legalization leaves casts between unsigned and signless integers,
+        # which are identities once all integers are signless.
+        ReconcileUnrealizedCastsPass().apply(xdsl_ctx, xdsl_module)
         scalar_linalg_folding(xdsl_ctx, xdsl_module)
         scalar_tensor_folding(xdsl_ctx, xdsl_module)
         cmpi_extui_folding(xdsl_ctx, xdsl_module)
-- 
2.43.0


From c137b2eb73e9454896432f34877f5ad29218eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:28:55 +0000
Subject: [PATCH 142/150] fix: read hexadecimal floats of exported constants as
 bit patterns

MLIR prints floats such as 2.0**32 or infinity as the hexadecimal form of
their bits. Inside dense literals these were read as integers, so the
exported module contained other constants than the program.
---
 src/qrisp/jasp/mlir/jaxpr_lowering.py | 41 ++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/jasp/mlir/jaxpr_lowering.py b/src/qrisp/jasp/mlir/jaxpr_lowering.py
index e4d4127..c210071 100644
--- a/src/qrisp/jasp/mlir/jaxpr_lowering.py
+++ b/src/qrisp/jasp/mlir/jaxpr_lowering.py
@@ -15,6 +15,8 @@
 ********************************************************************************
 """
 
+import re
+import struct
 import sys
 from io import StringIO
 
@@ -98,6 +100,43 @@ def lower_jaxpr_to_stablehlo_MLIR(jaxpr, lowering_rules=tuple([])):
     return ctx.module
 
 
+_FLOAT_FORMATS = {"f16": "<e", "f32": "<f", "f64": "<d"}
+_DENSE_HEX_FLOATS = re.compile(r'dense<([^<>"]*0x[^<>"]*)>( : tensor<(?:\d+x)*(f16|f32|f64)>)')
+
+
+def _encode_hex_floats(mlir_string: str) -> str:
+    """
+    Rewrite dense float literals with hexadecimal elements into the string form.
+
+    MLIR prints floats without an exact short decimal form (such as ``2.0**32``
+    or infinity) as the hexadecimal representation of their bits. xDSL would
+    read the elements of a dense literal as integers instead.
+
+    Parameters
+    ----------
+    mlir_string : str
+        The textual MLIR module in generic form.
+
+    Returns
+    -------
+    str
+        The same module without hexadecimal elements in dense float literals.
+
+    """
+
+    def encode(match):
+        float_format = _FLOAT_FORMATS[match[3]]
+        data = b""
+        for element in re.findall(r"[^\[\],\s]+", match[1]):
+            if element.startswith("0x"):
+                data += int(element, 16).to_bytes(struct.calcsize(float_format), "little")
+            else:
+                data += struct.pack(float_format, float(element))
+        return f'dense<"0x{data.hex().upper()}">{match[2]}'
+
+    return _DENSE_HEX_FLOATS.sub(encode, mlir_string)
+
+
 def MLIR_str_to_xdsl(mlir_string: str) -> builtin.ModuleOp:
     """Parse a generic-format MLIR string into an xDSL ``builtin.module``.
 
@@ -134,7 +173,7 @@ def MLIR_str_to_xdsl(mlir_string: str) -> builtin.ModuleOp:
     ctx.load_dialect(JaspDialect)
 
     # Parse the MLIR string and return the module op.
-    parser = Parser(ctx, mlir_string)
+    parser = Parser(ctx, _encode_hex_floats(mlir_string))
     return ctx, parser.parse_module()
 
 
-- 
2.43.0


From c3d83f26a049f3b822d08e66fb5674d97153f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:40:04 +0000
Subject: [PATCH 143/150] fix: apply the nested commutator gauge potential in
 counterdiabatic driving

---
 src/qrisp/algorithms/cold/problems/QUBO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/algorithms/cold/problems/QUBO.py b/src/qrisp/algorithms/cold/problems/QUBO.py
index 2f96745..465f082 100644
--- a/src/qrisp/algorithms/cold/problems/QUBO.py
+++ b/src/qrisp/algorithms/cold/problems/QUBO.py
@@ -130,8 +130,8 @@ def create_LCD_instance(Q, agp_type, uniform_AGP_coeffs=True):
             return A_lam
 
         def nested_commutators(J, h):
-            A_lam = -2 * [
-                h[i] * Y(i) + sum([J[i][j] * (Y(i) * Z(j) + Z(i) * Y(j)) for j in range(i)]) for i in range(N)
+            A_lam = [
+                -2 * (h[i] * Y(i) + sum([J[i][j] * (Y(i) * Z(j) + Z(i) * Y(j)) for j in range(i)])) for i in range(N)
             ]
             return A_lam
 
@@ -182,14 +182,14 @@ def create_LCD_instance(Q, agp_type, uniform_AGP_coeffs=True):
                 )
 
                 alph = -nom / denom
-                alph = [N * [alph]]
+                alph = [alph] * N
                 return alph
 
             return alpha
 
         def nc_nonuniform(J, h):
             def alpha(lam):
-                alph = [solve_alpha(h, J, lam)]
+                alph = solve_alpha(h, J, lam)
                 return alph
 
             return alpha
-- 
2.43.0


From 8674ccc8bcc6854fff55f226f74a5d882de1f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:45:08 +0000
Subject: [PATCH 144/150] fix: minimise the action in the coefficients of
 predefined counterdiabatic instances

---
 src/qrisp/algorithms/cold/problems/QUBO.py | 39 +++++++++-------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/qrisp/algorithms/cold/problems/QUBO.py b/src/qrisp/algorithms/cold/problems/QUBO.py
index 465f082..384d51c 100644
--- a/src/qrisp/algorithms/cold/problems/QUBO.py
+++ b/src/qrisp/algorithms/cold/problems/QUBO.py
@@ -18,7 +18,13 @@
 import numpy as np
 import sympy as sp
 
-from qrisp.algorithms.cold import DCQOProblem, solve_alpha
+from qrisp.algorithms.cold import (
+    DCQOProblem,
+    build_AGP_templates_NC,
+    build_Hg_from_templates,
+    solve_alpha,
+    solve_params,
+)
 from qrisp.core import QuantumVariable
 from qrisp.operators.qubit import X, Y, Z
 
@@ -59,8 +65,8 @@ def create_COLD_instance(Q, uniform_AGP_coeffs):
             B = 1 - lam
             C = h + f_deriv
 
-            nom = np.sum(A + 4 * B * C)
-            denom = 2 * (np.sum(A**2) + N * (B**2)) + 4 * (lam**2) * np.sum(np.tril(J, -1).sum(axis=1))
+            nom = np.sum(A + B * C)
+            denom = 2 * (np.sum(A**2) + N * (B**2)) + 4 * (lam**2) * np.sum(np.tril(J, -1) ** 2)
             alph = nom / denom
             alph = [alph] * N
 
@@ -71,7 +77,7 @@ def create_COLD_instance(Q, uniform_AGP_coeffs):
         def alpha(lam, f, f_deriv):
             nom = [h[i] + f + (1 - lam) * f_deriv for i in range(N)]
             denom = [
-                2 * ((lam * h[i] + f) ** 2 + (1 - lam) ** 2 + lam**2 * sum([J[i][j] for j in range(N) if j != i]))
+                2 * ((lam * h[i] + f) ** 2 + (1 - lam) ** 2 + lam**2 * sum([J[i][j] ** 2 for j in range(N) if j != i]))
                 for i in range(N)
             ]
 
@@ -145,8 +151,8 @@ def create_LCD_instance(Q, agp_type, uniform_AGP_coeffs=True):
             def alpha(lam):
                 A = lam * h
                 B = 1 - lam
-                nom = np.sum(A + 4 * B * h)
-                denom = 2 * (np.sum(A**2) + N * (B**2)) + 4 * (lam**2) * np.sum(np.tril(J, -1).sum(axis=1))
+                nom = np.sum(A + B * h)
+                denom = 2 * (np.sum(A**2) + N * (B**2)) + 4 * (lam**2) * np.sum(np.tril(J, -1) ** 2)
                 alph = nom / denom
                 alph = [alph] * N
                 return alph
@@ -156,7 +162,7 @@ def create_LCD_instance(Q, agp_type, uniform_AGP_coeffs=True):
         def order1_nonuniform(J, h):
             def alpha(lam):
                 denom = [
-                    2 * ((lam * h[i]) ** 2 + (1 - lam) ** 2 + lam**2 * sum([J[i][j] for j in range(N) if j != i]))
+                    2 * ((lam * h[i]) ** 2 + (1 - lam) ** 2 + lam**2 * sum([J[i][j] ** 2 for j in range(N) if j != i]))
                     for i in range(N)
                 ]
                 alph = [h[i] / denom[i] for i in range(N)]
@@ -166,22 +172,9 @@ def create_LCD_instance(Q, agp_type, uniform_AGP_coeffs=True):
 
         def nc_uniform(J, h):
             def alpha(lam):
-                S_hR = sum([sum([J[i][j] ** 2 * (h[i] + h[j]) for i in range(j)]) for j in range(N)])
-                S_hsqR = sum([sum([J[i][j] ** 2 * (h[i] ** 2 + h[j] ** 2) for i in range(j)]) for j in range(N)])
-                S_2 = sum([sum([J[i][j] ** 2 for i in range(j)]) for j in range(N)])
-                S_4 = sum([sum([J[i][j] ** 4 for i in range(j)]) for j in range(N)])
-                R_i_list = [sum([J[i][j] ** 2 if j != i else 0 for j in range(N)]) for i in range(N)]
-                S_Rsq = sum(R_i**2 for R_i in R_i_list)
-                S_h = sum(h)
-                S_hsq = sum(i**2 for i in h)
-
-                nom = S_h + 2 * S_2
-                denom = 4 * (
-                    lam**2 * (S_hsq + 2 * S_hsqR + 6 * S_hR + 2 * S_Rsq + 4 * S_2 - 2 * S_4)
-                    + (1 - lam) ** 2 * (N + 8 * S_2)
-                )
-
-                alph = -nom / denom
+                Hmat, gvec = build_Hg_from_templates(h, J, lam, 0.0, 0.0, build_AGP_templates_NC(h, J))
+                # All terms share one coefficient
+                alph = solve_params(np.array([[Hmat.sum()]]), np.array([gvec.sum()]))[0]
                 alph = [alph] * N
                 return alph
 
-- 
2.43.0


From 69619e1a3b0b21a4537067eebdbca56f4ed97c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:45:08 +0000
Subject: [PATCH 145/150] fix: differentiate the control pulse with respect to
 the schedule

---
 src/qrisp/algorithms/cold/dcqo_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/cold/dcqo_problem.py b/src/qrisp/algorithms/cold/dcqo_problem.py
index 11c3222..c979af6 100644
--- a/src/qrisp/algorithms/cold/dcqo_problem.py
+++ b/src/qrisp/algorithms/cold/dcqo_problem.py
@@ -248,7 +248,7 @@ class DCQOProblem:
         for k in range(N_opt):
             sin_matrix[:, k] = np.sin(np.pi * (k + 1 + r_params[k]) * t_list / T)
             cos_matrix[:, k] = (
-                (np.pi * (k + 1 + r_params[k])) * np.cos(np.pi * (k + 1 + r_params[k]) * self.g) * self.g_deriv
+                (np.pi * (k + 1 + r_params[k]) / T) * np.cos(np.pi * (k + 1 + r_params[k]) * self.g / T) * self.g_deriv
             )
 
         return sin_matrix, cos_matrix
-- 
2.43.0


From 368063f37fad5afddb852c46699f123e15710190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:53:54 +0000
Subject: [PATCH 146/150] fix: count the diagonal of the cost matrix once in
 counterdiabatic problems

---
 src/qrisp/algorithms/cold/dcqo_problem.py  | 4 ++--
 src/qrisp/algorithms/cold/problems/QUBO.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/algorithms/cold/dcqo_problem.py b/src/qrisp/algorithms/cold/dcqo_problem.py
index c979af6..ce5a637 100644
--- a/src/qrisp/algorithms/cold/dcqo_problem.py
+++ b/src/qrisp/algorithms/cold/dcqo_problem.py
@@ -77,7 +77,7 @@ class DCQOProblem:
         N = Q.shape[0]
 
         # Define QUBO problem hamiltonian
-        h = -0.5 * np.diag(Q) - 0.5 * np.sum(Q, axis=1)
+        h = -0.5 * np.sum(Q, axis=1)
         J = 0.5 * Q
 
         H_init = 1 * sum([X(i) for i in range(N)])
@@ -151,7 +151,7 @@ class DCQOProblem:
         # Qubo characteristics
         self.Q = Q
         self.J = 0.5 * Q
-        self.h = -0.5 * np.diag(Q) - 0.5 * np.sum(Q, axis=1)
+        self.h = -0.5 * np.sum(Q, axis=1)
 
         # Placeholder for the _precompute_timegrid function
         self.lam = None
diff --git a/src/qrisp/algorithms/cold/problems/QUBO.py b/src/qrisp/algorithms/cold/problems/QUBO.py
index 384d51c..68c9696 100644
--- a/src/qrisp/algorithms/cold/problems/QUBO.py
+++ b/src/qrisp/algorithms/cold/problems/QUBO.py
@@ -49,7 +49,7 @@ def create_COLD_instance(Q, uniform_AGP_coeffs):
 
     """
     N = len(Q[0])
-    h = -0.5 * np.diag(Q) - 0.5 * np.sum(Q, axis=1)
+    h = -0.5 * np.sum(Q, axis=1)
     J = 0.5 * Q
 
     def lam():
@@ -197,7 +197,7 @@ def create_LCD_instance(Q, agp_type, uniform_AGP_coeffs=True):
         return builders[(agp_type, uniform_AGP_coeffs)]
 
     N = len(Q[0])
-    h = -0.5 * np.diag(Q) - 0.5 * np.sum(Q, axis=1)
+    h = -0.5 * np.sum(Q, axis=1)
     J = 0.5 * Q
 
     def lam():
-- 
2.43.0


From 2a8626eef1ce7aa3dcf6796d640d56969e971228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:53:54 +0000
Subject: [PATCH 147/150] fix: basis change of Y factors in operator evolution
 and measurement

---
 src/qrisp/operators/qubit/qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 8bd7568..05df960 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -21,7 +21,7 @@ import jax.numpy as jnp
 import numpy as np
 import sympy as sp
 
-from qrisp import IterationEnvironment, conjugate, cx, cz, h, invert, merge, s, sx_dg
+from qrisp import IterationEnvironment, conjugate, cx, cz, h, invert, merge, s, sx
 from qrisp.jasp import check_for_tracing_mode, jrange
 from qrisp.operators.hamiltonian import Hamiltonian
 from qrisp.operators.hamiltonian_tools import group_up_iterable
@@ -1188,7 +1188,7 @@ class QubitOperator(Hamiltonian):
                             h(qarg[j])
 
                         if factor_dict[j] == "Y":
-                            sx_dg(qarg[j])
+                            sx(qarg[j])
 
                     new_factor_dict[j] = "Z"
 
-- 
2.43.0


From 993583449d033b682501e6c451cf5c80ce467a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:03:43 +0000
Subject: [PATCH 148/150] fix: sign of the counterdiabatic coefficients for the
 predefined initial Hamiltonian

---
 src/qrisp/algorithms/cold/AGP_params.py    | 4 ++--
 src/qrisp/algorithms/cold/problems/QUBO.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/algorithms/cold/AGP_params.py b/src/qrisp/algorithms/cold/AGP_params.py
index 9c27192..9a68dff 100644
--- a/src/qrisp/algorithms/cold/AGP_params.py
+++ b/src/qrisp/algorithms/cold/AGP_params.py
@@ -92,8 +92,8 @@ def build_H_and_dH(h, J, lam, B_val=0.0, Bp_val=0.0):
     # X-field
     for i in range(N):
         pX = pauli_from_ops({i: 1})
-        H[pX] += -(1 - lam)
-        dH[pX] += 1.0
+        H[pX] += 1 - lam
+        dH[pX] += -1.0
 
     # ZZ couplings
     for i in range(N):
diff --git a/src/qrisp/algorithms/cold/problems/QUBO.py b/src/qrisp/algorithms/cold/problems/QUBO.py
index 68c9696..95529de 100644
--- a/src/qrisp/algorithms/cold/problems/QUBO.py
+++ b/src/qrisp/algorithms/cold/problems/QUBO.py
@@ -67,7 +67,7 @@ def create_COLD_instance(Q, uniform_AGP_coeffs):
 
             nom = np.sum(A + B * C)
             denom = 2 * (np.sum(A**2) + N * (B**2)) + 4 * (lam**2) * np.sum(np.tril(J, -1) ** 2)
-            alph = nom / denom
+            alph = -nom / denom
             alph = [alph] * N
 
             return alph
@@ -81,7 +81,7 @@ def create_COLD_instance(Q, uniform_AGP_coeffs):
                 for i in range(N)
             ]
 
-            alph = [nom[i] / denom[i] for i in range(N)]
+            alph = [-nom[i] / denom[i] for i in range(N)]
             return alph
 
     # Initial Hamiltonian
@@ -153,7 +153,7 @@ def create_LCD_instance(Q, agp_type, uniform_AGP_coeffs=True):
                 B = 1 - lam
                 nom = np.sum(A + B * h)
                 denom = 2 * (np.sum(A**2) + N * (B**2)) + 4 * (lam**2) * np.sum(np.tril(J, -1) ** 2)
-                alph = nom / denom
+                alph = -nom / denom
                 alph = [alph] * N
                 return alph
 
@@ -165,7 +165,7 @@ def create_LCD_instance(Q, agp_type, uniform_AGP_coeffs=True):
                     2 * ((lam * h[i]) ** 2 + (1 - lam) ** 2 + lam**2 * sum([J[i][j] ** 2 for j in range(N) if j != i]))
                     for i in range(N)
                 ]
-                alph = [h[i] / denom[i] for i in range(N)]
+                alph = [-h[i] / denom[i] for i in range(N)]
                 return alph
 
             return alpha
-- 
2.43.0


From 4b69b134f1b3683cd1b9f1b2c2c6ca30c8ea875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:05:44 +0000
Subject: [PATCH 149/150] fix: counterdiabatic driving of variables without
 cost and couplings

---
 src/qrisp/algorithms/cold/problems/QUBO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/cold/problems/QUBO.py b/src/qrisp/algorithms/cold/problems/QUBO.py
index 95529de..201fba9 100644
--- a/src/qrisp/algorithms/cold/problems/QUBO.py
+++ b/src/qrisp/algorithms/cold/problems/QUBO.py
@@ -165,7 +165,7 @@ def create_LCD_instance(Q, agp_type, uniform_AGP_coeffs=True):
                     2 * ((lam * h[i]) ** 2 + (1 - lam) ** 2 + lam**2 * sum([J[i][j] ** 2 for j in range(N) if j != i]))
                     for i in range(N)
                 ]
-                alph = [-h[i] / denom[i] for i in range(N)]
+                alph = [-h[i] / denom[i] if h[i] != 0 else 0.0 for i in range(N)]
                 return alph
 
             return alpha
-- 
2.43.0


From e82e1ec9a11a69bfc834277c6af73823d892c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:32:58 +0000
Subject: [PATCH 150/150] fix: overflow when checking candidates for the order
 of a base

---
 src/qrisp/algorithms/shor/shors_algorithm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/algorithms/shor/shors_algorithm.py b/src/qrisp/algorithms/shor/shors_algorithm.py
index 9224c9e..0b702da 100644
--- a/src/qrisp/algorithms/shor/shors_algorithm.py
+++ b/src/qrisp/algorithms/shor/shors_algorithm.py
@@ -15,6 +15,8 @@
 ********************************************************************************
 """
 
+from math import lcm
+
 import numpy as np
 from sympy import Rational, continued_fraction_convergents, continued_fraction_iterator
 
@@ -103,15 +105,15 @@ def extract_order(mes_res, a, N):
         r_values = get_r_values(approximations.pop(0))
 
         for r in r_values:
-            if (a**r) % N == 1:
+            if pow(a, int(r), N) == 1:
                 return r
 
         collected_r_values.append(r_values)
         from itertools import product
 
         for comb in product(*collected_r_values):
-            r = np.lcm.reduce(comb)
-            if (a**r) % N == 1:
+            r = lcm(*map(int, comb))
+            if pow(a, r, N) == 1:
                 return r
 
 
-- 
2.43.0

