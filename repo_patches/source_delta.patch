From adca0bf51c9064362d97035a3ce922ee35476317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:56 +0000
Subject: [PATCH 01/81] fix: decompose multi-controlled Y into the correct sign

The decomposition of a controlled Y gate with several controls or a zero
control state conjugated the controlled X with S and S-dagger in the wrong
order, which implements a controlled minus-Y. Transpiling such a gate changed
the circuit.
---
 src/qrisp/circuit/controlled_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/controlled_operations.py b/src/qrisp/circuit/controlled_operations.py
index 07dde7d..88ddbb0 100644
--- a/src/qrisp/circuit/controlled_operations.py
+++ b/src/qrisp/circuit/controlled_operations.py
@@ -134,9 +134,9 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
 
     # Treat pauli gates
     elif u3_gate.name == "y":
-        qc.s(target_qubit)
-        qc.append(XGate().control(control_amount, method=method), qc.qubits)
         qc.s_dg(target_qubit)
+        qc.append(XGate().control(control_amount, method=method), qc.qubits)
+        qc.s(target_qubit)
 
     elif u3_gate.name == "z":
         qc.h(target_qubit)
-- 
2.43.0


From 95b09b5c24a1458f4e52c59643fd66833d53f66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:56 +0000
Subject: [PATCH 02/81] fix: use the right control bits for a controlled global
 phase

With two or more controls and a mixed control state the decomposition of a
controlled global phase assigned the control bits to the wrong qubits.
---
 src/qrisp/circuit/operation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 0be1812..35cb135 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -679,17 +679,17 @@ class PTControlledOperation(Operation):
 
             if num_ctrl_qubits > 1:
                 temp_gate = PGate(base_operation.params[0]).control(
-                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[1:], method=method
+                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[:-1], method=method
                 )
             else:
                 temp_gate = PGate(base_operation.params[0])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
             definition_circ.append(temp_gate, definition_circ.qubits[:num_ctrl_qubits])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
         elif self.base_operation.name == "gray_phase_gate":
-- 
2.43.0


From 28709a7ed0f6c8628a35f5e0e5b5d2cad6f6dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:45 +0000
Subject: [PATCH 03/81] fix: keep the control state when inverting phase
 tolerant rotations

The gray_pt_inv variants of multi-controlled rotations dropped the X gates
in front of the circuit. A control value of 0 was therefore treated as 1.
---
 src/qrisp/circuit/controlled_operations.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/qrisp/circuit/controlled_operations.py b/src/qrisp/circuit/controlled_operations.py
index 88ddbb0..29308a0 100644
--- a/src/qrisp/circuit/controlled_operations.py
+++ b/src/qrisp/circuit/controlled_operations.py
@@ -58,6 +58,10 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
     qc = QuantumCircuit(control_amount + 1)
     target_qubit = qc.qubits[-1]
 
+    # The inversion of phase tolerant gates has to include the X gates that select
+    # the control state, it is therefore performed at the end
+    invert_result = False
+
     # Apply control state specification
     for i in range(len(ctrl_state)):
         if ctrl_state[i] == "0":
@@ -75,8 +79,7 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
             phase_tolerant=method in ["gray_pt", "gray_pt_inv"],
         )
 
-        if method == "gray_pt_inv":
-            qc = qc.inverse()
+        invert_result = method == "gray_pt_inv"
 
     elif u3_gate.name == "rz":
         # Make sure to account for the possible global phase of rz
@@ -87,8 +90,7 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
             phase_tolerant=method in ["gray_pt", "gray_pt_inv"],
         )
 
-        if method == "gray_pt_inv":
-            qc = qc.inverse()
+        invert_result = method == "gray_pt_inv"
 
     elif u3_gate.name in ["rx", "sx", "sx_dg"]:
         # Same thing as with rz but now we use RX = H RZ H
@@ -101,8 +103,7 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
         )
         qc.h(target_qubit)
 
-        if method == "gray_pt_inv":
-            qc = qc.inverse()
+        invert_result = method == "gray_pt_inv"
 
     elif u3_gate.name == "ry":
         # Now we use RY = S RX S_DG
@@ -117,8 +118,7 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
         qc.h(target_qubit)
         qc.s_dg(target_qubit)
 
-        if method == "gray_pt_inv":
-            qc = qc.inverse()
+        invert_result = method == "gray_pt_inv"
 
     elif u3_gate.phi == 0 and u3_gate.lam == 0 and u3_gate.theta == 0 and u3_gate.global_phase == 0:
         pass
@@ -217,6 +217,9 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
         if ctrl_state[i] == "0":
             qc.x(qc.qubits[i])
 
+    if invert_result:
+        qc = qc.inverse()
+
     return qc
 
 
-- 
2.43.0


From 5072dc69704578876a2851ce9bb8deb0e5203728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:59 +0000
Subject: [PATCH 04/81] fix: let sx_dg apply the daggered SX gate

The function applied the inverse of the daggered gate, which is SX itself.
The measurement basis change for Y terms relied on this and now asks for SX.
---
 src/qrisp/core/gate_application_functions.py | 2 +-
 src/qrisp/operators/qubit/qubit_operator.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 3be22a1..9a63f04 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -1027,7 +1027,7 @@ def sx_dg(qubits):
         The Qubit to perform the daggered SX gate on.
 
     """
-    append_operation(std_ops.SXDGGate().inverse(), [qubits])
+    append_operation(std_ops.SXDGGate(), [qubits])
     return qubits
 
 
diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index c2c34cf..50f02e0 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -21,7 +21,7 @@ import jax.numpy as jnp
 import numpy as np
 import sympy as sp
 
-from qrisp import IterationEnvironment, conjugate, cx, cz, h, invert, merge, s, sx_dg
+from qrisp import IterationEnvironment, conjugate, cx, cz, h, invert, merge, s, sx
 from qrisp.jasp import check_for_tracing_mode, jrange
 from qrisp.operators.hamiltonian import Hamiltonian
 from qrisp.operators.hamiltonian_tools import group_up_iterable
@@ -1169,7 +1169,7 @@ class QubitOperator(Hamiltonian):
                             h(qarg[j])
 
                         if factor_dict[j] == "Y":
-                            sx_dg(qarg[j])
+                            sx(qarg[j])
 
                     new_factor_dict[j] = "Z"
 
-- 
2.43.0


From cfc5d03d07e540d4aa27f148b9e3f29de43ea705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:56 +0000
Subject: [PATCH 05/81] fix: convert the r gate to Qiskit with the axis used by
 Qrisp

QuantumCircuit.r rotates around an axis whose angle is counted from the y axis,
while the Qiskit gate counts it from the x axis. The converted circuit therefore
had a different matrix.
---
 src/qrisp/interface/converter/qiskit_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index b59daa4..d3278a2 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -243,7 +243,7 @@ def create_qiskit_instruction(op, params=[]):
     elif op.name == "u3":
         qiskit_ins = qsk_gates.U3Gate(*params)
     elif op.name == "r":
-        qiskit_ins = qsk_gates.RGate(*params)
+        qiskit_ins = qsk_gates.RGate(params[0], params[1] - np.pi / 2)
     elif isinstance(op, PRXGate):
         qiskit_ins = qsk_gates.RGate(op.alpha, op.beta)
     elif op.name == "id":
-- 
2.43.0


From 8adc656013cc226f75304f417acebe8a7532b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:56 +0000
Subject: [PATCH 06/81] fix: keep the condition value and all condition bits
 when converting to Qiskit

A classically controlled gate was always converted into a test of its first bit
against 1. The control state and further bits were dropped.
---
 src/qrisp/interface/converter/qiskit_converter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index d3278a2..e8acabe 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -112,8 +112,14 @@ def convert_to_qiskit(qc, transpile=False):
                 else:
                     base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
                     body_qc.append(base_qiskit_ins, qubit_list)
-                qiskit_ins = IfElseOp((clbit_list[0], 1), true_body=body_qc)
-                clbit_list = []
+                # Nest one conditional per classical bit, such that the body is executed
+                # if every bit has the value specified by the control state
+                qiskit_ins = IfElseOp((clbit_list[-1], int(op.ctrl_state[-1])), true_body=body_qc)
+                for j in range(len(clbit_list) - 2, -1, -1):
+                    body_qc = QuantumCircuit(qubit_list, clbit_list[j + 1 :])
+                    body_qc.append(qiskit_ins, qubit_list, clbit_list[j + 2 :])
+                    qiskit_ins = IfElseOp((clbit_list[j], int(op.ctrl_state[j])), true_body=body_qc)
+                clbit_list = clbit_list[1:]
             except ImportError:
                 base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
                 cl_reg = ClassicalRegister(op.num_clbits)
-- 
2.43.0


From 46e07abc0c57afe9493a097ee46ad509f42b3fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:56 +0000
Subject: [PATCH 07/81] fix: keep relative phases of controlled sx and u1 gates
 in the Qiskit converter

These gates agree with their Qiskit counterpart only up to a global phase. Once
the gate is controlled this phase is observable, so the exact gate is used there.
---
 .../interface/converter/qiskit_converter.py   | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index e8acabe..e424d29 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -19,12 +19,13 @@ import numpy as np
 from sympy import Expr, lambdify
 
 from qrisp.circuit import ClControlledOperation, ControlledOperation, PRXGate
+from qrisp.circuit.operation import U3Gate
 from qrisp.circuit.standard_operations import op_list
 from qrisp.misc import bin_rep
 
 
 # Function to convert qrisp quantum circuits to Qiskit quantum circuits
-def convert_to_qiskit(qc, transpile=False):
+def convert_to_qiskit(qc, transpile=False, exact_phase=False):
     from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
     from qiskit.circuit import Parameter
 
@@ -136,7 +137,7 @@ def convert_to_qiskit(qc, transpile=False):
                 base_name = base_name.upper()
 
             if op.base_operation.definition:
-                qiskit_definition = convert_to_qiskit(op.base_operation.definition)
+                qiskit_definition = convert_to_qiskit(op.base_operation.definition, exact_phase=True)
                 base_gate = qiskit_definition.to_gate()
                 base_gate.name = op.base_operation.name
                 qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
@@ -146,10 +147,10 @@ def convert_to_qiskit(qc, transpile=False):
             elif op.num_qubits == op.base_operation.num_qubits:
                 qiskit_ins = create_qiskit_instruction(op.base_operation, params)
             else:
-                base_gate = create_qiskit_instruction(op.base_operation, params)
+                base_gate = create_qiskit_instruction(op.base_operation, params, exact_phase=True)
                 qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
         else:
-            qiskit_ins = create_qiskit_instruction(op, params)
+            qiskit_ins = create_qiskit_instruction(op, params, exact_phase=exact_phase)
 
         # Append to qiskit circuit
         qiskit_qc.append(qiskit_ins, qubit_list, clbit_list)
@@ -157,7 +158,7 @@ def convert_to_qiskit(qc, transpile=False):
     return qiskit_qc
 
 
-def create_qiskit_instruction(op, params=[]):
+def create_qiskit_instruction(op, params=[], exact_phase=False):
     import qiskit.circuit.library.standard_gates as qsk_gates
     from qiskit import QiskitError
     from qiskit.circuit import Barrier, Measure, Reset
@@ -187,13 +188,13 @@ def create_qiskit_instruction(op, params=[]):
             base_name = base_name.upper()
 
         if op.base_operation.definition:
-            qiskit_definition = convert_to_qiskit(op.base_operation.definition)
+            qiskit_definition = convert_to_qiskit(op.base_operation.definition, exact_phase=True)
             base_gate = qiskit_definition.to_gate()
             base_gate.name = op.base_operation.name
             qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
 
         else:
-            base_gate = create_qiskit_instruction(op.base_operation, params)
+            base_gate = create_qiskit_instruction(op.base_operation, params, exact_phase=True)
             qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
     elif op.name == "rxx":
         qiskit_ins = qsk_gates.RXXGate(*params)
@@ -221,6 +222,14 @@ def create_qiskit_instruction(op, params=[]):
         qiskit_ins = qsk_gates.RYGate(params[0])
     elif op.name == "rz":
         qiskit_ins = qsk_gates.RZGate(params[0])
+    # These gates differ from their Qiskit counterpart by a global phase,
+    # which turns into a relative phase if the gate is controlled
+    elif op.name == "sx" and exact_phase:
+        qiskit_ins = qsk_gates.RXGate(np.pi / 2)
+    elif op.name == "sx_dg" and exact_phase:
+        qiskit_ins = qsk_gates.RXGate(-np.pi / 2)
+    elif op.name == "u1" and exact_phase:
+        qiskit_ins = qsk_gates.RZGate(params[0])
     elif op.name == "sx":
         qiskit_ins = qsk_gates.SXGate()
     elif op.name == "h":
@@ -257,7 +266,7 @@ def create_qiskit_instruction(op, params=[]):
     elif op.name == "reset":
         qiskit_ins = Reset()
     elif op.definition:
-        qiskit_definition = convert_to_qiskit(op.definition)
+        qiskit_definition = convert_to_qiskit(op.definition, exact_phase=exact_phase)
         try:
             qiskit_ins = qiskit_definition.to_gate()
         except QiskitError:
@@ -274,7 +283,7 @@ op_dic = {op().name: op for op in op_list}
 op_dic["u"] = op_dic["u3"]
 
 
-def convert_from_qiskit(qiskit_qc):
+def convert_from_qiskit(qiskit_qc, exact_phase=False):
     from qiskit import QuantumCircuit as QiskitQuantumCircuit
     from qiskit.circuit import ControlledGate, ParameterExpression
 
@@ -369,6 +378,12 @@ def convert_from_qiskit(qiskit_qc):
             from qrisp.circuit import PRXGate as _PRXGate
 
             op = _PRXGate(params[0], params[1])
+        # The Qrisp versions of these gates differ from the Qiskit gate by a global
+        # phase, which turns into a relative phase if the gate is controlled
+        elif qiskit_op.name == "sx" and (controlled_gate or exact_phase):
+            op = U3Gate(np.pi / 2, -np.pi / 2, np.pi / 2, global_phase=np.pi / 4)
+        elif qiskit_op.name == "u1" and (controlled_gate or exact_phase):
+            op = op_dic["p"](*params)
         else:
             try:
                 op = op_dic[qiskit_op.name](*params)
@@ -377,7 +392,10 @@ def convert_from_qiskit(qiskit_qc):
                     op = op_dic[qiskit_op.name.lower()](*params)
                 except KeyError:
                     if qiskit_op.definition is not None:
-                        op = convert_from_qiskit(qiskit_op.definition).to_gate(name=qiskit_op.name)
+                        qrisp_definition = convert_from_qiskit(
+                            qiskit_op.definition, exact_phase=controlled_gate or exact_phase
+                        )
+                        op = qrisp_definition.to_gate(name=qiskit_op.name)
                     else:
                         raise Exception("Could not convert Qiskit operation " + str(qiskit_op.name) + " to Qrisp")
 
-- 
2.43.0


From f8ce264fc531af9250c0893bd50d9cb38b896dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:38 +0000
Subject: [PATCH 08/81] fix: convert u1, cp and 0-controlled gates to pytket
 correctly

The u1 angle was divided by pi twice, cp became a one qubit rotation and gates
controlled on the zero state were converted into gates controlled on one.
---
 .../interface/converter/pytket_converter.py   | 31 ++++++-------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/qrisp/interface/converter/pytket_converter.py b/src/qrisp/interface/converter/pytket_converter.py
index d8986c6..95e66aa 100644
--- a/src/qrisp/interface/converter/pytket_converter.py
+++ b/src/qrisp/interface/converter/pytket_converter.py
@@ -139,30 +139,18 @@ def pytket_converter(qc, boxFlag=False):
         if op.name in ["qb_alloc", "qb_dealloc"]:
             continue
 
-        elif op.name == "cx":
-            # maybe adjustment necessary here
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CX
-            else:
-                tket_ins = OpType.CX
+        # gates controlled on the |0> state are converted using their definition below
+        elif op.name == "cx" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CX
 
-        elif op.name == "cy":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CY
-            else:
-                tket_ins = OpType.CY
+        elif op.name == "cy" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CY
 
-        elif op.name == "cz":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CZ
-            else:
-                tket_ins = OpType.CZ
+        elif op.name == "cz" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CZ
 
-        elif op.name == "cp":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CRz
-            else:
-                tket_ins = OpType.Rz
+        elif op.name == "cp" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CU1
 
         elif op.name == "sx":
             # bugged -> params empty
@@ -174,7 +162,6 @@ def pytket_converter(qc, boxFlag=False):
             tket_ins = OpType.SXdg
 
         elif op.name == "u1":
-            params[0] = params[0] / np.pi
             # bugged
             tket_ins = OpType.Rz
         elif op.name == "id":
-- 
2.43.0


From f813134896a7cdbe11290ae2cc61ab178b9f8598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:38 +0000
Subject: [PATCH 09/81] fix: respect conditions on zero when converting to Stim

---
 src/qrisp/interface/converter/stim_converter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/interface/converter/stim_converter.py b/src/qrisp/interface/converter/stim_converter.py
index ae6d3fb..a9bfd80 100644
--- a/src/qrisp/interface/converter/stim_converter.py
+++ b/src/qrisp/interface/converter/stim_converter.py
@@ -361,6 +361,10 @@ def qrisp_to_stim(
             # Apply the conditional gate for each target qubit
             for q_idx in qubit_indices:
                 stim_circuit.append(stim_gate, [rec_target, q_idx])
+                # Stim feedback acts if the measurement result is 1, so a condition
+                # on 0 additionally requires the unconditioned gate
+                if op.ctrl_state == "0":
+                    stim_circuit.append(stim_gate[1], [q_idx])
 
         # Unknown gate
         else:
-- 
2.43.0


From 65c3ba7e0f5f694d87d6dc6c4fa41499b5d151a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:38 +0000
Subject: [PATCH 10/81] fix: keep relative phases of controlled fractional
 powers converted from Cirq

Powers of X and Y were replaced by rotations, which drops a phase that is
observable once the gate is controlled.
---
 src/qrisp/interface/converter/cirq_converter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qrisp/interface/converter/cirq_converter.py b/src/qrisp/interface/converter/cirq_converter.py
index 9ede12b..b84b16e 100644
--- a/src/qrisp/interface/converter/cirq_converter.py
+++ b/src/qrisp/interface/converter/cirq_converter.py
@@ -18,6 +18,7 @@
 import numpy as np
 
 from qrisp.circuit import ControlledOperation
+from qrisp.circuit.operation import U3Gate
 
 
 def convert_to_cirq(qrisp_circuit, cirq_qubits=None):
@@ -346,6 +347,9 @@ def convert_from_cirq(cirq_circuit):
             ctrl_layers.append((inner_gate.num_controls(), ctrl_state))
             inner_gate = inner_gate.sub_gate
 
+        # The global phase of the innermost gate matters if it is controlled
+        is_controlled = bool(ctrl_layers) or extra_controls is not None
+
         # Convert the innermost gate to a Qrisp operation
         qrisp_op = None
 
@@ -371,6 +375,8 @@ def convert_from_cirq(cirq_circuit):
                 qrisp_op = ops.RXGate(exp * np.pi)
             elif np.isclose(exp % 4, 1.0):
                 qrisp_op = ops.XGate()
+            elif is_controlled:
+                qrisp_op = U3Gate(exp * np.pi, -np.pi / 2, np.pi / 2, global_phase=exp * np.pi / 2)
             elif np.isclose(exp % 4, 0.5):
                 qrisp_op = ops.SXGate()
             elif np.isclose(exp % 4, 3.5):
@@ -385,6 +391,8 @@ def convert_from_cirq(cirq_circuit):
                 qrisp_op = ops.RYGate(exp * np.pi)
             elif np.isclose(exp % 4, 1.0):
                 qrisp_op = ops.YGate()
+            elif is_controlled:
+                qrisp_op = U3Gate(exp * np.pi, 0, 0, global_phase=exp * np.pi / 2)
             else:
                 qrisp_op = ops.RYGate(exp * np.pi)
 
-- 
2.43.0


From ca57dde19fd26da6782fb2783baeb205a42219e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:05 +0000
Subject: [PATCH 11/81] fix: refuse controlled global phases when converting
 from Cirq

They were converted into an uncontrolled global phase.
---
 src/qrisp/interface/converter/cirq_converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/interface/converter/cirq_converter.py b/src/qrisp/interface/converter/cirq_converter.py
index b84b16e..9a93eb4 100644
--- a/src/qrisp/interface/converter/cirq_converter.py
+++ b/src/qrisp/interface/converter/cirq_converter.py
@@ -314,6 +314,8 @@ def convert_from_cirq(cirq_circuit):
         # argument, so map it to the first available qubit.  Handled
         # outside the dict because of this special qubit-mapping logic.
         if isinstance(gate, cirq.GlobalPhaseGate):
+            if extra_controls is not None:
+                raise ValueError(f"Controlled global phase {op} is not supported by the Cirq to Qrisp converter.")
             phi = np.angle(gate.coefficient)
             if cirq_qubits:
                 qc.append(ops.GPhaseGate(phi), [qubit_map[cirq_qubits[0]]])
-- 
2.43.0


From be52489721965d19650b6cb93c4d433c650622f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:27 +0000
Subject: [PATCH 12/81] fix: read control state strings in the same order while
 tracing

The traced versions of mcx, mcz and mcp read the string from the other end
(mcx even as a decimal number), so they acted on a different control state than
the same call outside of tracing.
---
 src/qrisp/core/gate_application_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 9a63f04..2a6b0dc 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -528,6 +528,8 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         qubits_0 = controls
         if isinstance(qubits_0, (QuantumVariable, DynamicQubitArray)) and method not in ["balauca", "khattar"]:
             method = "balauca"
+        if isinstance(ctrl_state, str) and method == "balauca":
+            ctrl_state = int(ctrl_state[::-1], 2)
         qubits_1 = [target]
     from qrisp.alg_primitives.mcx_algs import (
         balauca_dirty,
@@ -706,7 +708,7 @@ def mcz(qubits, method="auto", ctrl_state=-1, num_ancilla=1):
         if method == "auto":
             method = "balauca"
         if isinstance(ctrl_state, str):
-            ctrl_state = int(ctrl_state, 2)
+            ctrl_state = int(ctrl_state[::-1], 2)
         return jasp_mcz_inner(qubits, method=method, ctrl_state=ctrl_state)
 
     if method in ["gray", "auto"]:
@@ -789,7 +791,7 @@ def mcp(phi, qubits, method="auto", ctrl_state=-1):
         if method == "auto":
             method = "balauca"
         if isinstance(ctrl_state, str):
-            ctrl_state = int(ctrl_state, 2)
+            ctrl_state = int(ctrl_state[::-1], 2)
 
     if method == "gray" or method == "gray_pt":
         if ctrl_state[-1] == "0":
-- 
2.43.0


From 128577b2b25f2e5831999b3eeb74ea029cfd136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:27 +0000
Subject: [PATCH 13/81] fix: read the control state string of classical
 controls like that of quantum controls

The i-th character of the string now belongs to the i-th condition, as it does
if the conditions are qubits.
---
 src/qrisp/environments/classical_control_environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/environments/classical_control_environment.py b/src/qrisp/environments/classical_control_environment.py
index 7847134..dd344de 100644
--- a/src/qrisp/environments/classical_control_environment.py
+++ b/src/qrisp/environments/classical_control_environment.py
@@ -163,7 +163,7 @@ class ClControlEnvironment(QuantumEnvironment):
             if ctrl_state == len(ctrl_bls) * "1":
                 self.ctrl_state = -1
             else:
-                self.ctrl_state = int(self.ctrl_state, 2)
+                self.ctrl_state = int(self.ctrl_state[::-1], 2)
 
         self.ctrl_state = self.ctrl_state % (2 ** len(self.ctrl_bls))
 
-- 
2.43.0


From a185a6eae1d119b0f9034e6f7bbd4e8ae6dc138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:27 +0000
Subject: [PATCH 14/81] fix: respect the invert option of classical controls
 outside of tracing

---
 .../classical_control_environment.py          | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/qrisp/environments/classical_control_environment.py b/src/qrisp/environments/classical_control_environment.py
index dd344de..d333835 100644
--- a/src/qrisp/environments/classical_control_environment.py
+++ b/src/qrisp/environments/classical_control_environment.py
@@ -169,11 +169,12 @@ class ClControlEnvironment(QuantumEnvironment):
 
         self.invert = invert
 
+    def condition_holds(self):
+        res = all(bool(self.ctrl_bls[i]) == bool((self.ctrl_state >> i) & 1) for i in range(len(self.ctrl_bls)))
+        return res != self.invert
+
     def compile(self):
-        for i in range(len(self.ctrl_bls)):
-            if self.ctrl_bls[i] != bool((self.ctrl_state >> i) & 1):
-                break
-        else:
+        if self.condition_holds():
             QuantumEnvironment.compile(self)
 
     def __exit__(self, exception_type, exception_value, traceback):
@@ -191,16 +192,12 @@ class ClControlEnvironment(QuantumEnvironment):
         # any further action.
         static_error_appeared = False
         if not check_for_tracing_mode():
-            if exception_type is not None:
-                for i in range(len(self.ctrl_bls)):
-                    ctrl_bl = self.ctrl_bls[i]
-                    if (ctrl_bl ^ (self.ctrl_state >> i)) & 1:
-                        self.env_qs.data = []
-                        static_error_appeared = True
-                        exception_type = None
-                        exception_value = None
-                        traceback = None
-                        break
+            if exception_type is not None and not self.condition_holds():
+                self.env_qs.data = []
+                static_error_appeared = True
+                exception_type = None
+                exception_value = None
+                traceback = None
 
         QuantumEnvironment.__exit__(self, exception_type, exception_value, traceback)
 
-- 
2.43.0


From 59f80c582faa4cc66c8ae7a12cf21bf45a2d6384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:29 +0000
Subject: [PATCH 15/81] fix: correct the phase of the compiled Jones Toffoli

The Selinger circuit applies a factor of i, which has to be undone by the
adjoint phase gate. Otherwise the Toffoli was followed by a controlled Z.
---
 src/qrisp/alg_primitives/mcx_algs/circuit_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
index 2152324..6aaa90a 100644
--- a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
+++ b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
@@ -145,7 +145,7 @@ selinger_toffoli_qc.h(2)
 # Implementation of the T-Depth 1 Toffoli found in https://arxiv.org/pdf/1212.5069.pdf
 jones_toffoli_qc = QuantumCircuit(5, 1)
 jones_toffoli_qc.append(selinger_toffoli_qc.to_gate("selinger_quasi_toffoli"), [0, 1, 3, 4])
-jones_toffoli_qc.s(3)
+jones_toffoli_qc.s_dg(3)
 jones_toffoli_qc.cx(3, 2)
 jones_toffoli_qc.h(3)
 jones_toffoli_qc.measure(3, 0)
-- 
2.43.0


From 0ab74ea05d0f6b791d52b08753a41c9de0737f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:15 +0000
Subject: [PATCH 16/81] fix: keep conditional gates after the measurements they
 depend on when converting to Qiskit

---
 .../interface/converter/qiskit_converter.py      | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index e424d29..8231084 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -107,20 +107,22 @@ def convert_to_qiskit(qc, transpile=False, exact_phase=False):
                 from qiskit.circuit import IfElseOp
 
                 qregs = [qiskit_qc.qregs[qc.qubits.index(qb)] for qb in qc.data[i].qubits]
+                # Qiskit only orders the conditional relative to the measurements
+                # if the classical bits are part of the body
                 body_qc = QuantumCircuit(*qregs)
+                body_qc.add_bits(clbit_list)
                 if op.base_op.definition:
-                    body_qc = body_qc.compose(op.base_op.definition.to_qiskit())
+                    body_qc = body_qc.compose(op.base_op.definition.to_qiskit(), clbits=clbit_list[op.num_control :])
                 else:
                     base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
-                    body_qc.append(base_qiskit_ins, qubit_list)
+                    body_qc.append(base_qiskit_ins, qubit_list, clbit_list[op.num_control :])
                 # Nest one conditional per classical bit, such that the body is executed
                 # if every bit has the value specified by the control state
-                qiskit_ins = IfElseOp((clbit_list[-1], int(op.ctrl_state[-1])), true_body=body_qc)
-                for j in range(len(clbit_list) - 2, -1, -1):
-                    body_qc = QuantumCircuit(qubit_list, clbit_list[j + 1 :])
-                    body_qc.append(qiskit_ins, qubit_list, clbit_list[j + 2 :])
+                for j in range(op.num_control - 1, 0, -1):
                     qiskit_ins = IfElseOp((clbit_list[j], int(op.ctrl_state[j])), true_body=body_qc)
-                clbit_list = clbit_list[1:]
+                    body_qc = QuantumCircuit(qubit_list, clbit_list)
+                    body_qc.append(qiskit_ins, qubit_list, clbit_list)
+                qiskit_ins = IfElseOp((clbit_list[0], int(op.ctrl_state[0])), true_body=body_qc)
             except ImportError:
                 base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
                 cl_reg = ClassicalRegister(op.num_clbits)
-- 
2.43.0


From 3ac188781535bd3b53d3c33d34ffebb0a4eba162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:35 +0000
Subject: [PATCH 17/81] fix: apply the phase of a single qubit mcp with the
 balauca method

---
 src/qrisp/core/gate_application_functions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 2a6b0dc..ba54fae 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -769,6 +769,14 @@ def mcp(phi, qubits, method="auto", ctrl_state=-1):
 
         qubits = convert_to_qb_list(qubits)
 
+        if len(qubits) == 1:
+            if ctrl_state == "0":
+                x(qubits[0])
+            p(phi, qubits[0])
+            if ctrl_state == "0":
+                x(qubits[0])
+            return
+
         temp = QuantumBool()
         hybrid_mcx(
             qubits,
-- 
2.43.0


From 7e7c1fbd5c8968373b07f5da634b73f8b7e5c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:23 +0000
Subject: [PATCH 18/81] fix: cancel the phases of the four qubit Khattar mcx

---
 src/qrisp/alg_primitives/mcx_algs/khattar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/khattar.py b/src/qrisp/alg_primitives/mcx_algs/khattar.py
index bf81040..2ecc56f 100644
--- a/src/qrisp/alg_primitives/mcx_algs/khattar.py
+++ b/src/qrisp/alg_primitives/mcx_algs/khattar.py
@@ -113,9 +113,10 @@ def cca_4ctrls(ctrls, target):
 
     mcx([ctrls[1], cca4_anc[0]], target[0])
 
-    mcx([ctrls[2], ctrls[3]], ctrls[1], method="gray_pt")
+    # The phases of the phase tolerant gates only cancel for the same order of the controls
+    mcx([ctrls[3], ctrls[2]], ctrls[1], method="gray_pt")
     x(ctrls[1])
-    mcx([ctrls[0], ctrls[1]], cca4_anc[0], method="gray_pt")
+    mcx([ctrls[1], ctrls[0]], cca4_anc[0], method="gray_pt")
 
     cca4_anc.delete()
 
-- 
2.43.0


From dcd6093d7d348aff91d4a418b4f5230505dbf3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:41 +0000
Subject: [PATCH 19/81] fix: keep the condition bits of classically controlled
 gates converted to PRX

---
 src/qrisp/circuit/pass_management/passes/convert_to_prx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
index e68edfd..163cee7 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
@@ -123,7 +123,11 @@ def convert_to_prx(qc: QuantumCircuit) -> QuantumCircuit:
                 # Append gate if not identity
                 if abs(conversion_op.theta % (2 * np.pi)) >= 1e-5:
                     if isinstance(op, ClControlledOperation):
-                        qc_new.append(prx_0.c_if(op.num_control, op.ctrl_state), qc.data[i].qubits)  # type: ignore[arg-type]
+                        qc_new.append(
+                            prx_0.c_if(op.num_control, op.ctrl_state),  # type: ignore[arg-type]
+                            qc.data[i].qubits,
+                            qc.data[i].clbits,
+                        )
                     else:
                         qc_new.append(prx_0, qc.data[i].qubits)
 
-- 
2.43.0


From 2efc7d91735b15526996067359c42419a3c94608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:42 +0000
Subject: [PATCH 20/81] fix: respect 0-controlled gates in the circuit passes

---
 .../pass_management/passes/cancel_zero_controls.py  |  9 +++++++--
 .../circuit/pass_management/passes/convert_to_cx.py |  8 ++++++++
 .../circuit/pass_management/passes/convert_to_cz.py |  8 ++++++++
 .../pass_management/passes/fuse_adjacents.py        | 13 +++++++++++--
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
index 243223b..e46ac2a 100644
--- a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
+++ b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
@@ -34,11 +34,16 @@ def _is_cancelled_by_zero(op: Operation, qubits: list[Qubit], fresh: set[Qubit])
     r"""Return True if *op* on *qubits* is a no-op given a set of \|0⟩ qubits."""
     # Symmetric controlled-phase gates: diag(1,1,1,e^{iφ}).
     # Identity whenever *either* qubit is \|0⟩.
-    if op.name in ("cp", "cz"):
+    if op.name in ("cp", "cz") and getattr(op, "ctrl_state", "1") == "1":
         return any(qb in fresh for qb in qubits)
 
     # PTControlledOperation wrapping a phase gate on 2 qubits (≡ CP)
-    if isinstance(op, PTControlledOperation) and op.base_operation.name == "p" and op.num_qubits == 2:
+    if (
+        isinstance(op, PTControlledOperation)
+        and op.base_operation.name == "p"
+        and op.num_qubits == 2
+        and op.ctrl_state == "1"
+    ):
         return any(qb in fresh for qb in qubits)
 
     # General controlled operations: cancel when a control-on-\|1⟩ is still \|0⟩.
diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
index 8c5d89c..cd52032 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
@@ -94,6 +94,11 @@ def convert_to_cx(
             op = instr.op
 
             if op.num_qubits == 2 and op.name not in ("cx", "barrier"):
+                # The replacements below are controlled on the |1> state
+                zero_control = getattr(op, "ctrl_state", "1") == "0"
+                if zero_control and op.name in ("cz", "cy"):
+                    qc_new.x(instr.qubits[0])
+
                 if op.name == "cz":
                     qc_new.h(instr.qubits[1])
                     qc_new.cx(instr.qubits[0], instr.qubits[1])
@@ -110,6 +115,9 @@ def convert_to_cx(
                     raise ValueError(f"Don't know how to convert two-qubit gate {op.name!r} to CX")
                 else:
                     qc_new.append(instr)
+
+                if zero_control and op.name in ("cz", "cy"):
+                    qc_new.x(instr.qubits[0])
             else:
                 qc_new.append(instr)
 
diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
index d209dc8..3229c2a 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
@@ -95,6 +95,11 @@ def convert_to_cz(
             op = instr.op
 
             if op.num_qubits == 2 and op.name not in ("cz", "barrier"):
+                # The replacements below are controlled on the |1> state
+                zero_control = getattr(op, "ctrl_state", "1") == "0"
+                if zero_control and op.name in ("cx", "cy"):
+                    qc_new.x(instr.qubits[0])
+
                 if op.name == "cx":
                     qc_new.h(instr.qubits[1])
                     qc_new.cz(instr.qubits[0], instr.qubits[1])
@@ -121,6 +126,9 @@ def convert_to_cz(
                     raise ValueError(f"Don't know how to convert two-qubit gate {op.name!r} to CZ")
                 else:
                     qc_new.append(instr)
+
+                if zero_control and op.name in ("cx", "cy"):
+                    qc_new.x(instr.qubits[0])
             else:
                 qc_new.append(instr)
 
diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 876a857..73a1460 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -93,6 +93,11 @@ _FUSION_CANCEL = object()
 # =============================================================================
 
 
+def _is_zero_controlled(op):
+    """Return True if any control of *op* is activated by the 0 state."""
+    return "0" in (getattr(op, "ctrl_state", None) or "")
+
+
 def _fuse_swap_with_neighbour(op_a, op_b):
     """Try to fuse a SWAP gate with a neighbouring symmetric two-qubit gate.
 
@@ -118,6 +123,10 @@ def _fuse_swap_with_neighbour(op_a, op_b):
         the neighbour is not a recognised symmetric two-qubit gate.
 
     """
+    # The replacements below hold for gates controlled on the |1> state
+    if _is_zero_controlled(op_a) or _is_zero_controlled(op_b):
+        return None
+
     with fast_append(0):
         # --- swap-a then something ---
         if "swap" == op_a.name:
@@ -546,8 +555,8 @@ def _resolve_qubit_order(instr_a, instr_b):
         if the qubits cannot be matched.
 
     """
-    a_sym = instr_a.op.name in _SYMMETRIC_GATES
-    b_sym = instr_b.op.name in _SYMMETRIC_GATES
+    a_sym = instr_a.op.name in _SYMMETRIC_GATES and not _is_zero_controlled(instr_a.op)
+    b_sym = instr_b.op.name in _SYMMETRIC_GATES and not _is_zero_controlled(instr_b.op)
 
     if a_sym or b_sym:
         # Symmetric match by set — qubit order difference is tolerated.
-- 
2.43.0


From 6ef7764e9eeb9d1635df72c01afeb571f43719b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:42 +0000
Subject: [PATCH 21/81] fix: keep the order of measurements and conditions when
 commuting swaps

---
 src/qrisp/circuit/pass_management/passes/commute_swaps.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/commute_swaps.py b/src/qrisp/circuit/pass_management/passes/commute_swaps.py
index a7e470d..75636db 100644
--- a/src/qrisp/circuit/pass_management/passes/commute_swaps.py
+++ b/src/qrisp/circuit/pass_management/passes/commute_swaps.py
@@ -114,6 +114,14 @@ def commute_swaps(qc: QuantumCircuit) -> QuantumCircuit:
         else:
             instr_index = len(qc_new.data) - 1
 
+            # Instructions sharing a classical bit with this one must not be moved past it
+            for clbit in instr.clbits:
+                for qb, indices in last_instruction_dic.items():
+                    for k in range(len(indices))[::-1]:
+                        if clbit in qc_new.data[indices[k]].clbits:
+                            last_instruction_dic[qb] = indices[k + 1 :]
+                            break
+
             if instr.op.num_qubits == 1 and len(instr.qubits) == 1:
                 qb = instr.qubits[0]
                 last_instruction_dic[qb].append(instr_index)
-- 
2.43.0


From 1a2317a6d37c963be8f8ef26d19650a67abae4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:55 +0000
Subject: [PATCH 22/81] fix: keep allocations out of fused gates

---
 src/qrisp/circuit/pass_management/passes/fuse_adjacents.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 73a1460..97bac8a 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -516,6 +516,10 @@ def _fuse_operations(op_a, op_b, gphase_array):
     #    cancellation only becomes visible after decomposition.
     #    This is an escape hatch for cases where the inverse names
     #    don't match but the decompositions partially cancel.
+    # (De)allocations need to stay visible to the compiler
+    if op_a.name[-5:] == "alloc" or op_b.name[-5:] == "alloc":
+        return None
+
     if (op_a.definition or op_b.definition) and op_a.num_clbits == 0 == op_b.num_clbits:
         result = _fuse_via_transpile(op_a, op_b)
         if result is not None:
-- 
2.43.0


From 0a2d3bf57c6efaa54263c0d70cdac42f79e35430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:29 +0000
Subject: [PATCH 23/81] fix: accept classically controlled multi qubit gates in
 the permeability graph

---
 src/qrisp/permeability/permeability_dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/permeability/permeability_dag.py b/src/qrisp/permeability/permeability_dag.py
index 829b08e..05bd044 100644
--- a/src/qrisp/permeability/permeability_dag.py
+++ b/src/qrisp/permeability/permeability_dag.py
@@ -480,7 +480,7 @@ def dag_from_qc(dag, qc, remove_artificials=False):
         # This treats the case of a deallocation node
         else:
             node = DeallocNode(instr)
-            perm_dic = {0: "neutral"}
+            perm_dic = {j: "neutral" for j in range(len(instr.qubits))}
 
         # We add the index of the corresponding gate to the node object,
         # because this information can be used for stable topological ordering:
-- 
2.43.0


From 60d511730010ea03cda27fc3630d7170b7c2aa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:08 +0000
Subject: [PATCH 24/81] fix: release the ancillas of a controlled projector
 term in the term simulation

---
 src/qrisp/operators/qubit/qubit_term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_term.py b/src/qrisp/operators/qubit/qubit_term.py
index 32e1571..9c5e08f 100644
--- a/src/qrisp/operators/qubit/qubit_term.py
+++ b/src/qrisp/operators/qubit/qubit_term.py
@@ -469,7 +469,7 @@ class QubitTerm:
                 else:
                     rz(coeff * 2, qv[anchor_index])
 
-        if len(projector_indices) >= 2:
+        if len(projector_qubits) >= 2:
             # Delete ancilla
             hs_anc_qbl.delete()
             balauca_ancillae.delete()
-- 
2.43.0


From d7799aa81208137212b4f3b48fae9deb805b1701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:06 +0000
Subject: [PATCH 25/81] fix: leave option dictionaries and lists given by the
 caller unchanged

---
 src/qrisp/alg_primitives/iterative_qae.py      |  3 +--
 .../program_control/quantum_switch.py          |  2 +-
 .../program_control/switch_case.py             |  2 +-
 src/qrisp/algorithms/cold/dcqo_problem.py      |  3 +--
 src/qrisp/algorithms/lanczos.py                |  3 +--
 src/qrisp/algorithms/qaoa/qaoa_problem.py      | 12 ++++--------
 src/qrisp/algorithms/qmci.py                   |  2 +-
 src/qrisp/algorithms/vqe/vqe_problem.py        | 18 ++++--------------
 8 files changed, 14 insertions(+), 31 deletions(-)

diff --git a/src/qrisp/alg_primitives/iterative_qae.py b/src/qrisp/alg_primitives/iterative_qae.py
index 0c7961d..2181497 100644
--- a/src/qrisp/alg_primitives/iterative_qae.py
+++ b/src/qrisp/alg_primitives/iterative_qae.py
@@ -215,8 +215,7 @@ def quantum_step(k, N, init_function, state_function, oracle_function, mes_kwarg
     if check_for_tracing_mode():
         a_i = expectation_value(state_prep, shots=N)(k)
     else:
-        mes_kwargs["shots"] = int(N)
-        res_dict = state_prep(k).get_measurement(**mes_kwargs)
+        res_dict = state_prep(k).get_measurement(**{**mes_kwargs, "shots": int(N)})
         a_i = res_dict.get(True, 0)
 
     return a_i
diff --git a/src/qrisp/alg_primitives/program_control/quantum_switch.py b/src/qrisp/alg_primitives/program_control/quantum_switch.py
index 690dedf..4ab1444 100644
--- a/src/qrisp/alg_primitives/program_control/quantum_switch.py
+++ b/src/qrisp/alg_primitives/program_control/quantum_switch.py
@@ -344,7 +344,7 @@ def _q_switch_q(index, branches, *operands, branch_amount=None, method="auto", i
                 def identity(_):
                     pass
 
-                branches.append(identity)
+                branches = [*branches, identity]
 
             if check_for_tracing_mode():
 
diff --git a/src/qrisp/alg_primitives/program_control/switch_case.py b/src/qrisp/alg_primitives/program_control/switch_case.py
index aecef1b..15cda48 100644
--- a/src/qrisp/alg_primitives/program_control/switch_case.py
+++ b/src/qrisp/alg_primitives/program_control/switch_case.py
@@ -373,7 +373,7 @@ def qswitch(operand, case, case_function, method="auto", case_amount=None, inv=F
                 def identity(_):
                     pass
 
-                case_function.append(identity)
+                case_function = [*case_function, identity]
 
             if check_for_tracing_mode():
 
diff --git a/src/qrisp/algorithms/cold/dcqo_problem.py b/src/qrisp/algorithms/cold/dcqo_problem.py
index 629c22b..59c1b81 100644
--- a/src/qrisp/algorithms/cold/dcqo_problem.py
+++ b/src/qrisp/algorithms/cold/dcqo_problem.py
@@ -671,8 +671,7 @@ class DCQOProblem:
             raise ValueError(f'"{method}" is not an option for method. Choose "LCD" or "COLD".')
 
         # Measure qarg
-        if "shots" not in mes_kwargs:
-            mes_kwargs["shots"] = 5000
+        mes_kwargs = {"shots": 5000, **mes_kwargs}
         res_dict = dict(qarg.get_measurement(**mes_kwargs))
 
         # Add qubo cost in result dict
diff --git a/src/qrisp/algorithms/lanczos.py b/src/qrisp/algorithms/lanczos.py
index 93ef5b9..1126a65 100644
--- a/src/qrisp/algorithms/lanczos.py
+++ b/src/qrisp/algorithms/lanczos.py
@@ -218,8 +218,7 @@ def lanczos_expvals(
 
     """
     # Set default options
-    if "shots" not in mes_kwargs:
-        mes_kwargs["shots"] = 100000
+    mes_kwargs = {"shots": 100000, **mes_kwargs}
 
     BE = H if isinstance(H, BlockEncoding) else BlockEncoding.from_operator(H)
 
diff --git a/src/qrisp/algorithms/qaoa/qaoa_problem.py b/src/qrisp/algorithms/qaoa/qaoa_problem.py
index 0ab71f3..5426f90 100644
--- a/src/qrisp/algorithms/qaoa/qaoa_problem.py
+++ b/src/qrisp/algorithms/qaoa/qaoa_problem.py
@@ -595,10 +595,8 @@ class QAOAProblem:
                 return template.construct()
 
         # Set default options
-        options["maxiter"] = max_iter
-
-        if "shots" not in mes_kwargs:
-            mes_kwargs["shots"] = 5000
+        options = {**options, "maxiter": max_iter}
+        mes_kwargs = {"shots": 5000, **mes_kwargs}
 
         # Delete callback
         self.optimization_params = []
@@ -741,10 +739,8 @@ class QAOAProblem:
                 return template.construct()
 
         # Set default options
-        options["maxiter"] = max_iter
-
-        if "shots" not in mes_kwargs:
-            mes_kwargs["shots"] = 5000
+        options = {**options, "maxiter": max_iter}
+        mes_kwargs = {"shots": 5000, **mes_kwargs}
 
         opt_theta, opt_res = self.optimization_routine(
             qarg_prep, depth, mes_kwargs, init_type, init_point, optimizer, options
diff --git a/src/qrisp/algorithms/qmci.py b/src/qrisp/algorithms/qmci.py
index c5887ff..7f55320 100644
--- a/src/qrisp/algorithms/qmci.py
+++ b/src/qrisp/algorithms/qmci.py
@@ -97,7 +97,7 @@ def QMCI(qargs, function, distribution=None, mes_kwargs={}):
     for arg in qargs:
         V0 *= 2 ** (arg.size + arg.exponent)
 
-    qargs.append(QuantumBool())
+    qargs = [*qargs, QuantumBool()]
 
     @auto_uncompute
     def state_function(*args):
diff --git a/src/qrisp/algorithms/vqe/vqe_problem.py b/src/qrisp/algorithms/vqe/vqe_problem.py
index eeba335..cbb4e9a 100644
--- a/src/qrisp/algorithms/vqe/vqe_problem.py
+++ b/src/qrisp/algorithms/vqe/vqe_problem.py
@@ -429,13 +429,8 @@ class VQEProblem:
                 return template.construct()
 
         # Set default options
-        if "precision" not in mes_kwargs:
-            mes_kwargs["precision"] = 0.01
-
-        if "diagonalisation_method" not in mes_kwargs:
-            mes_kwargs["diagonalisation_method"] = "commuting_qw"
-
-        options["maxiter"] = max_iter
+        mes_kwargs = {"precision": 0.01, "diagonalisation_method": "commuting_qw", **mes_kwargs}
+        options = {**options, "maxiter": max_iter}
 
         if check_for_tracing_mode():
             measurement_data = None
@@ -515,13 +510,8 @@ class VQEProblem:
                 return template.construct()
 
         # Set default options
-        if "precision" not in mes_kwargs:
-            mes_kwargs["precision"] = 0.01
-
-        if "diagonalisation_method" not in mes_kwargs:
-            mes_kwargs["diagonalisation_method"] = "commuting_qw"
-
-        options["maxiter"] = max_iter
+        mes_kwargs = {"precision": 0.01, "diagonalisation_method": "commuting_qw", **mes_kwargs}
+        options = {**options, "maxiter": max_iter}
 
         if check_for_tracing_mode():
             measurement_data = None
-- 
2.43.0


From 8c99f0c12ddfe8383bbb41ebed1708bd5191f40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:34 +0000
Subject: [PATCH 26/81] fix: keep the name flag of a quantum variable when it
 is duplicated

---
 src/qrisp/core/quantum_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index ed7f7f8..70b4d1d 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -543,7 +543,7 @@ class QuantumVariable:
 
         if name is not None:
             if name[-1] == "*":
-                self.user_given_name = False
+                duplicate.user_given_name = False
                 name = name[:-1]
             else:
                 duplicate.user_given_name = True
-- 
2.43.0


From 25233e9a500e6269e550c27fbf3405ccc6c6a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:34 +0000
Subject: [PATCH 27/81] fix: in-place multiplication of fermionic operators
 evaluates to the operator

---
 src/qrisp/operators/fermionic/fermionic_operator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index ec15357..db89652 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -500,6 +500,7 @@ class FermionicOperator(Hamiltonian):
                 res_terms_dict[curr_ladder_term] = res_terms_dict.get(curr_ladder_term, 0) + coeff1 * coeff2
 
         self.terms_dict = res_terms_dict
+        return self
 
     #
     # Miscellaneous
-- 
2.43.0


From b13300760f8f26e80c1b259c65eb2eae3862b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:58 +0000
Subject: [PATCH 28/81] fix: import helpers from the modules that define them

---
 src/qrisp/alg_primitives/logic_synthesis/truth_tables.py | 5 +++--
 src/qrisp/circuit/controlled_operations.py               | 5 ++---
 src/qrisp/core/compilation.py                            | 2 +-
 src/qrisp/interface/converter/qulacs_converter.py        | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
index 41420ac..ce5a8a9 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
@@ -190,9 +190,10 @@ class TruthTable:
             from qrisp.alg_primitives.logic_synthesis.gray_synthesis import (
                 gray_logic_synth,
             )
-            from qrisp.misc import quantum_invert
+            from qrisp.environments import invert
 
-            quantum_invert(gray_logic_synth, [input_var, output_var, self, True], input_var.qs)
+            with invert():
+                gray_logic_synth(input_var, output_var, self, phase_tolerant=True)
 
         elif method == "pprm_pt":
             from qrisp.alg_primitives.logic_synthesis.pprm_synthesis import pprm
diff --git a/src/qrisp/circuit/controlled_operations.py b/src/qrisp/circuit/controlled_operations.py
index 29308a0..462f063 100644
--- a/src/qrisp/circuit/controlled_operations.py
+++ b/src/qrisp/circuit/controlled_operations.py
@@ -224,7 +224,7 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
 
 
 def multi_controlled_gray_circ(gray_gate, control_amount, ctrl_state):
-    from qrisp.alg_primitives.logic_synthesis.gray_synthesis import gray_synth_gate
+    from qrisp.alg_primitives.logic_synthesis.gray_synthesis import GraySynthGate
 
     target_phases_old = gray_gate.target_phases
 
@@ -238,8 +238,7 @@ def multi_controlled_gray_circ(gray_gate, control_amount, ctrl_state):
         else:
             target_phases_new += target_phases_old
 
-    new_gray_gate = gray_synth_gate(target_phases_new)
-    print(new_gray_gate.definition)
+    new_gray_gate = GraySynthGate(target_phases_new)
     return new_gray_gate.definition, target_phases_new
 
 
diff --git a/src/qrisp/core/compilation.py b/src/qrisp/core/compilation.py
index 486d1ca..c3caeb9 100644
--- a/src/qrisp/core/compilation.py
+++ b/src/qrisp/core/compilation.py
@@ -76,7 +76,7 @@ def qompiler(
         if not disable_uncomputation:
             local_qvs = qs.get_local_qvs()
 
-            from qrisp.permeability.unqomp import uncompute_qc
+            from qrisp.permeability import uncompute_qc
 
             for qv in local_qvs:
                 try:
diff --git a/src/qrisp/interface/converter/qulacs_converter.py b/src/qrisp/interface/converter/qulacs_converter.py
index 799966b..7918503 100644
--- a/src/qrisp/interface/converter/qulacs_converter.py
+++ b/src/qrisp/interface/converter/qulacs_converter.py
@@ -21,7 +21,7 @@ def qulacs_converter(qc):
     import qulacs.gate as gt
     from qulacs import QuantumCircuit
 
-    from qrisp.simulator import extract_measurements
+    from qrisp.simulator.circuit_preprocessing import extract_measurements
 
     temp_qc, measurements = extract_measurements(qc.copy())
 
-- 
2.43.0


From 0f3f5e00a73214216f32f85b21e1ebc1031646e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:58 +0000
Subject: [PATCH 29/81] fix: expectation value of an operator on a list of
 quantum variables

---
 src/qrisp/operators/qubit/measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/measurement.py b/src/qrisp/operators/qubit/measurement.py
index 98fc7b6..ec6aaab 100644
--- a/src/qrisp/operators/qubit/measurement.py
+++ b/src/qrisp/operators/qubit/measurement.py
@@ -97,7 +97,7 @@ def get_measurement(
     elif isinstance(qarg, list):
         qs = QuantumSession()
         for arg in qarg:
-            if isinstance(arg, QuantumVariable) and qv.is_deleted():
+            if isinstance(arg, QuantumVariable) and arg.is_deleted():
                 raise Exception("Tried to measure QuantumArray containing deleted QuantumVariables")
             merge(qs, arg)
 
@@ -107,7 +107,7 @@ def get_measurement(
 
             backend = def_backend
         else:
-            backend = qarg.qs.backend
+            backend = qs.backend
 
     if len(qs.env_stack) != 0:
         raise Exception("Tried to get measurement within open environment")
-- 
2.43.0


From 891c0a5d4918bd9323ebe53c1cdedcc1ae70a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:10 +0000
Subject: [PATCH 30/81] fix: round the unitary of a composite gate on the first
 request as well

---
 src/qrisp/circuit/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 35cb135..e37e816 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -224,7 +224,7 @@ class Operation:
         # the definition circuit
         elif not isinstance(self.definition, type(None)):
             self.unitary = self.definition.get_unitary()
-            return self.get_unitary()
+            return self.get_unitary(decimals)
 
         # If no definition circuit is known, raise an error.
         # Note that the get_unitary methods of more specific gate families specified
-- 
2.43.0


From 9cef2ff01e439cd4b05acae80a8c0a14c63da918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:10 +0000
Subject: [PATCH 31/81] fix: pass the measurement options on in most_likely

---
 src/qrisp/core/quantum_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index 70b4d1d..d7370d7 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -1095,7 +1095,7 @@ class QuantumVariable:
         1
 
         """
-        return list(self.get_measurement())[0]
+        return list(self.get_measurement(**kwargs))[0]
 
     def __getitem__(self, key):
         return self.reg[key]
-- 
2.43.0


From ca7273d8f152e9dba3dec1cfa55e9b21a0033282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:11 +0000
Subject: [PATCH 32/81] fix: honour verify when lifted is given the function
 directly

---
 src/qrisp/misc/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 32bd0bf..91033e3 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1878,7 +1878,7 @@ def lifted(*args, verify=False):
         return lifted_helper
 
     else:
-        return gate_wrap(permeability="args", is_qfree=True)(args[0])
+        return gate_wrap(permeability="args", is_qfree=True, verify=verify)(args[0])
 
 
 def t_depth_indicator(op, epsilon):
-- 
2.43.0


From 94bcf47ea22d0d9bf0eafed975c9ea77e565b179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:11 +0000
Subject: [PATCH 33/81] fix: report the benchmark depth of the circuit that was
 run

---
 src/qrisp/algorithms/qaoa/qaoa_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/qaoa/qaoa_problem.py b/src/qrisp/algorithms/qaoa/qaoa_problem.py
index 5426f90..2b22557 100644
--- a/src/qrisp/algorithms/qaoa/qaoa_problem.py
+++ b/src/qrisp/algorithms/qaoa/qaoa_problem.py
@@ -892,7 +892,7 @@ class QAOAProblem:
                         )
                         final_time = time.time() - start_time
 
-                        compiled_qc, _ = self.compile_circuit(qarg_prep(), depth=p)
+                        compiled_qc, _ = self.compile_circuit(qarg_prep(), depth=p, init_type=init_type)
 
                         data_dict["layer_depth"].append(p)
                         data_dict["circuit_depth"].append(compiled_qc.depth())
-- 
2.43.0


From b89b48986f65012dec7ce9bea1a5dfe8dd9a7247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:11 +0000
Subject: [PATCH 34/81] fix: keep parallelize_qc when demux skips an unused
 control qubit

---
 src/qrisp/alg_primitives/iterable_processing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/alg_primitives/iterable_processing.py b/src/qrisp/alg_primitives/iterable_processing.py
index 0a95645..c4ef803 100644
--- a/src/qrisp/alg_primitives/iterable_processing.py
+++ b/src/qrisp/alg_primitives/iterable_processing.py
@@ -157,6 +157,7 @@ def demux(
             output,
             ctrl_method=ctrl_method,
             permit_mismatching_size=permit_mismatching_size,
+            parallelize_qc=parallelize_qc,
         )
         return output
 
-- 
2.43.0


From c6531b0d69d1da29af2d14ac794f130bab3ede05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:11 +0000
Subject: [PATCH 35/81] fix: honour inv in logic synthesis

---
 src/qrisp/core/quantum_session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_session.py b/src/qrisp/core/quantum_session.py
index 2a7eec7..1cc2a4f 100644
--- a/src/qrisp/core/quantum_session.py
+++ b/src/qrisp/core/quantum_session.py
@@ -417,7 +417,7 @@ class QuantumSession(QuantumCircuit):
         if len(output_qubits) != tt.shape[1]:
             raise Exception("Given truth table has unfitting amount of output columns")
 
-        self.append(tt.gate_synth(method=method, inv=False), input_qubits + output_qubits)
+        self.append(tt.gate_synth(method=method, inv=inv), input_qubits + output_qubits)
 
     def __eq__(self, other):
         return id(self.data) == id(other.data)
-- 
2.43.0


From 64f2c29e075f0929257548dd42144916e3e0c101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:27 +0000
Subject: [PATCH 36/81] fix: honour num_ancilla in mcz

---
 src/qrisp/core/gate_application_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index ba54fae..6f577be 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -662,7 +662,7 @@ def mcz(qubits, method="auto", ctrl_state=-1, num_ancilla=1):
             x(qubits[-1])
 
         h(qubits[-1])
-        mcx(qubits[:-1], qubits[-1], method=method, ctrl_state=ctrl_state[:-1])
+        mcx(qubits[:-1], qubits[-1], method=method, ctrl_state=ctrl_state[:-1], num_ancilla=num_ancilla)
         h(qubits[-1])
 
         if ctrl_state[-1] == "0":
@@ -690,6 +690,7 @@ def mcz(qubits, method="auto", ctrl_state=-1, num_ancilla=1):
             qubits[-1],
             method=method,
             ctrl_state=ctrl_state & ((1 << (n - 1)) - 1),
+            num_ancilla=num_ancilla,
         )
         h(qubits[-1])
 
-- 
2.43.0


From 13b0b45e4a91763888224ba997b419924062a3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:27 +0000
Subject: [PATCH 37/81] fix: draw the statevector graph with the given node
 positions

---
 .../algorithms/quantum_backtracking/backtracking_tree.py     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/algorithms/quantum_backtracking/backtracking_tree.py b/src/qrisp/algorithms/quantum_backtracking/backtracking_tree.py
index a313e2f..e6eb71d 100644
--- a/src/qrisp/algorithms/quantum_backtracking/backtracking_tree.py
+++ b/src/qrisp/algorithms/quantum_backtracking/backtracking_tree.py
@@ -1276,8 +1276,9 @@ class QuantumBacktrackingTree:
 
             return res_dic
 
-        pos = tree_layout(G, root, 0, 0)
-        pos[root] = (0, 0)
+        if pos is None:
+            pos = tree_layout(G, root, 0, 0)
+            pos[root] = (0, 0)
 
         import colorsys
 
-- 
2.43.0


From 1da4ca1ab5e22981a63d7c3251a7dacb0c3ca9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:27 +0000
Subject: [PATCH 38/81] fix: make documented and actual default values agree

---
 src/qrisp/algorithms/cold/dcqo_problem.py            | 2 +-
 src/qrisp/algorithms/gqsp/pseudo_inversion.py        | 2 +-
 src/qrisp/core/quantum_variable.py                   | 4 +---
 src/qrisp/jasp/evaluation_tools/terminal_sampling.py | 2 +-
 src/qrisp/operators/hamiltonian_tools.py             | 2 +-
 5 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/algorithms/cold/dcqo_problem.py b/src/qrisp/algorithms/cold/dcqo_problem.py
index 59c1b81..2bf6f31 100644
--- a/src/qrisp/algorithms/cold/dcqo_problem.py
+++ b/src/qrisp/algorithms/cold/dcqo_problem.py
@@ -592,7 +592,7 @@ class DCQOProblem:
             If ``True``, the CRAB optimization method is being used. The default is ``False``.
         optimizer : str, optional
             Specifies the `SciPy optimization routine <https://docs.scipy.org/doc/scipy/reference/generated/scipy.optimize.minimize.html>`_.
-            We set the default to ``Powell``.
+            We set the default to ``COBYQA``.
         options : dict
             A dictionary of solver options.
         objective : str
diff --git a/src/qrisp/algorithms/gqsp/pseudo_inversion.py b/src/qrisp/algorithms/gqsp/pseudo_inversion.py
index 8a8b0e8..c483d36 100644
--- a/src/qrisp/algorithms/gqsp/pseudo_inversion.py
+++ b/src/qrisp/algorithms/gqsp/pseudo_inversion.py
@@ -237,7 +237,7 @@ def _pseudo_inversion_cheb(
     theta: float,
     delta: float = None,
     eps: float = 1e-3,
-    max_N: int = 2024,
+    max_N: int = 2048,
 ) -> npt.NDArray[np.float64]:
     r"""Constructs a Chebyshev polynomial approximation of the pseudo-inversion.
 
diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index d7370d7..60859b0 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -841,9 +841,7 @@ class QuantumVariable:
             The amount of qubits to add.
         position : int, optional
             The position of where to add the qubits. By default, qubits are added at the
-            end.
-            st of qubits which are to be added to the QuantumVariable.
-            The default is None.
+            end. The default is -1.
 
         Raises
         ------
diff --git a/src/qrisp/jasp/evaluation_tools/terminal_sampling.py b/src/qrisp/jasp/evaluation_tools/terminal_sampling.py
index 7be5417..3508235 100644
--- a/src/qrisp/jasp/evaluation_tools/terminal_sampling.py
+++ b/src/qrisp/jasp/evaluation_tools/terminal_sampling.py
@@ -43,7 +43,7 @@ def terminal_sampling(func=None, shots=0):
     func : callable
         A Jasp compatible function returning QuantumVariables.
     shots : int, optional
-        An integer specifying the amount of shots. The default is None, which
+        An integer specifying the amount of shots. The default is 0, which
         will result in probabilities being returned.
 
     Returns
diff --git a/src/qrisp/operators/hamiltonian_tools.py b/src/qrisp/operators/hamiltonian_tools.py
index 6084c9d..e87b49b 100644
--- a/src/qrisp/operators/hamiltonian_tools.py
+++ b/src/qrisp/operators/hamiltonian_tools.py
@@ -48,7 +48,7 @@ def multi_hamiltonian_measurement(
         specified in the file default_backend.py.
     shots : integer, optional
         The maximum amount of shots to evaluate the expectation per Hamiltonian.
-        The default is 100000.
+        The default is 1000000.
     compile : bool, optional
         Boolean indicating if the .compile method of the underlying QuantumSession
         should be called before. The default is True.
-- 
2.43.0


From 3c6670341bf4462df01beb35d76423a9c50d84a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:58:19 +0000
Subject: [PATCH 39/81] fix: keep the overflow treatment when shifting by a
 quantum value

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 0f5eef2..db7a47e 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -1061,7 +1061,7 @@ def quantum_bit_shift(qf, bit_shift, treat_overflow=True):
 
         for i in range(*bit_shift.mshape):
             with control(bit_shift.significant(i)):
-                quantum_bit_shift(qf, 2**i)
+                quantum_bit_shift(qf, 2**i, treat_overflow)
 
         return
 
-- 
2.43.0


From 2969d80480f5b6189e942608e75ac1878a1baa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:49 +0000
Subject: [PATCH 40/81] fix: write the product of two different variables into
 the given target

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index db7a47e..3fb7144 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -923,7 +923,10 @@ def q_mult(factor_1, factor_2, target=None, method="auto"):
     elif method == "hybrid":
         from qrisp.alg_primitives.arithmetic import hybrid_mult
 
-        return hybrid_mult(factor_1, factor_2)
+        return hybrid_mult(factor_1, factor_2, output_qf=target)
+
+    else:
+        raise Exception(f"Multiplication method {method} not available")
 
 
 def QFT_inpl_mult(qv, inplace_mult=1):
-- 
2.43.0


From 6d511c0ce7d014de2c59c1f33afa52d18cb024e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:49 +0000
Subject: [PATCH 41/81] fix: refuse unknown trotterization orders and grouping
 methods

---
 src/qrisp/operators/qubit/qubit_operator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 50f02e0..54faf40 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1126,6 +1126,9 @@ class QubitOperator(Hamiltonian):
         ladder_conjugation_performed = False
         ladder_indices = []
 
+        if method not in ["commuting_qw", "commuting"]:
+            raise Exception(f"Don't know change of basis method {method}")
+
         if method == "commuting_qw":
             # We track which qubit is in which basis to raise an error if a
             # violation with the requirement of qubit wise commutativity is detected.
@@ -1798,6 +1801,12 @@ class QubitOperator(Hamiltonian):
         {'0000': 0.77015, '0001': 0.22985}
 
         """
+        if method not in ["commuting_qw", "commuting"]:
+            raise Exception(f"Don't know trotterization method {method}")
+
+        if order not in [1, 2]:
+            raise Exception(f"Trotterization of order {order} is not available")
+
         O = self.hermitize().eliminate_ladder_conjugates()
         commuting_groups = O.group_up(lambda a, b: a.commute_pauli(b))
 
-- 
2.43.0


From 931f136d9245f1e5376984614f09b79ea2fd94ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:49 +0000
Subject: [PATCH 42/81] fix: refuse unknown ansatz types in the Heisenberg
 problem

---
 src/qrisp/algorithms/vqe/problems/heisenberg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/algorithms/vqe/problems/heisenberg.py b/src/qrisp/algorithms/vqe/problems/heisenberg.py
index b2dea25..1b3ef62 100644
--- a/src/qrisp/algorithms/vqe/problems/heisenberg.py
+++ b/src/qrisp/algorithms/vqe/problems/heisenberg.py
@@ -173,6 +173,8 @@ def create_heisenberg_ansatz(G, J, B, M, C, ansatz_type="per hamiltonian"):
         return ansatz_per_edge_color
     if ansatz_type == "per edge":
         return ansatz_per_edge
+    if ansatz_type != "per hamiltonian":
+        raise Exception(f"Ansatz type {ansatz_type} is not available")
     return ansatz
 
 
-- 
2.43.0


From 275915d928612540148cd83051a1fa58ad39dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:49 +0000
Subject: [PATCH 43/81] fix: refuse unknown methods in QITE

---
 src/qrisp/algorithms/qite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/algorithms/qite.py b/src/qrisp/algorithms/qite.py
index 68c78d4..1f4ac0c 100644
--- a/src/qrisp/algorithms/qite.py
+++ b/src/qrisp/algorithms/qite.py
@@ -174,6 +174,9 @@ def QITE(qarg, U_0, exp_H, s, k, method="GC"):
         :align: center
 
     """
+    if method not in ["GC", "HOPF"]:
+        raise Exception(f"QITE method {method} is not available")
+
     if not check_for_tracing_mode():
         if k == 0:
             U_0(qarg)
-- 
2.43.0


From ae42e86791e545ac810f02fb63fcb4402277ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:06 +0000
Subject: [PATCH 44/81] fix: compute commutators with operators that have no
 terms

The smallest coefficient of an empty operator does not exist, so the commutator with the
zero operator raised an error. The threshold derived from it had no effect and is gone.
---
 src/qrisp/operators/qubit/qubit_operator.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 54faf40..581e60c 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -513,17 +513,12 @@ class QubitOperator(Hamiltonian):
 
 
         """
-        res = 0
+        res = QubitOperator({})
 
         for term_self, coeff_self in self.terms_dict.items():
             for term_other, coeff_other in other.terms_dict.items():
                 res += coeff_self * coeff_other * term_self.commutator(term_other)
 
-        min_coeff_self = min([abs(coeff) for coeff in self.terms_dict.values()])
-        min_coeff_other = min([abs(coeff) for coeff in other.terms_dict.values()])
-
-        res.apply_threshold(min_coeff_self * min_coeff_other / 2)
-
         return res
 
     def apply_threshold(self, threshold):
-- 
2.43.0


From 66d2ed5b8716c7f45d2e169347e3ea83a13a1d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:06 +0000
Subject: [PATCH 45/81] fix: return an operator for the Pauli form of a complex
 multiple of the identity

A bare complex number came back when the operator had only an identity term.
---
 src/qrisp/operators/qubit/qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 581e60c..779fc6f 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -775,7 +775,7 @@ class QubitOperator(Hamiltonian):
         res = 0
         for term, coeff in self.terms_dict.items():
             res += coeff * term.to_pauli()
-        if isinstance(res, (float, int)):
+        if not isinstance(res, QubitOperator):
             return QubitOperator({QubitTerm({}): res})
         return res
 
-- 
2.43.0


From b83c587c947f378864e4f3371607aaeb93e53b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:06 +0000
Subject: [PATCH 46/81] fix: evolve every term once in the commuting
 trotterization

Each group of terms with the same ladder operators applied all terms of its commuting group,
so operators with ladder terms evolved several times too far.
---
 src/qrisp/operators/qubit/qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 779fc6f..1c930b8 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1827,7 +1827,7 @@ class QubitOperator(Hamiltonian):
                 for com_group in commuting_groups:
                     qw_groups = com_group.group_up(lambda a, b: a.ladders_agree(b))
                     for qw_group in qw_groups:
-                        with conjugate(com_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
+                        with conjugate(qw_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
                             intersect_groups = diagonal_operator.group_up(lambda a, b: not a.intersect(b))
                             for intersect_group in intersect_groups:
                                 for term, coeff in intersect_group.terms_dict.items():
-- 
2.43.0


From 99fa8851d69db2519f34ab63dc900a4760c76eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:06 +0000
Subject: [PATCH 47/81] fix: keep the imaginary part of ladder terms in
 simulation and measurement

A ladder term with a complex coefficient lost its imaginary part when it was merged with its
adjoint, so operators like 1j*A(0)*C(1) - 1j*C(0)*A(1) evolved as if they were zero.
---
 src/qrisp/operators/qubit/qubit_operator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 1c930b8..d06bbbe 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -875,6 +875,7 @@ class QubitOperator(Hamiltonian):
 
     def eliminate_ladder_conjugates(self):
         new_terms_dict = {}
+        imaginary_part = QubitOperator({})
         for term, coeff in self.terms_dict.items():
             for factor in term.factor_dict.values():
                 if factor in ["A", "C"]:
@@ -883,12 +884,19 @@ class QubitOperator(Hamiltonian):
                 new_terms_dict[term] = coeff
                 continue
 
+            # The imaginary parts of a ladder term and its adjoint cancel each other if the
+            # coefficients are added, they are therefore represented by Pauli terms.
+            if isinstance(coeff, complex):
+                if coeff.imag != 0:
+                    imaginary_part += QubitOperator({term: 1j * coeff.imag}).hermitize().to_pauli()
+                coeff = coeff.real
+
             if term.adjoint() in new_terms_dict:
                 new_terms_dict[term.adjoint()] += coeff
             else:
                 new_terms_dict[term] = coeff
 
-        return QubitOperator(new_terms_dict).apply_threshold(0)
+        return QubitOperator(new_terms_dict).apply_threshold(0) + imaginary_part
 
     def ground_state_energy(self):
         """Calculates the ground state energy (i.e., the minimum eigenvalue) of the operator classically.
-- 
2.43.0


From ead14c93c95abbdfcb1ec3b1af7afed256f760ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:19:38 +0000
Subject: [PATCH 48/81] fix: compare fermionic operators by their standard form
 only

The terms of the standard form were looked up in the unsorted terms of the other operator, so
an operator like a(2)*c(1) did not compare equal to itself.
---
 src/qrisp/operators/fermionic/fermionic_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index db89652..52cab40 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -269,7 +269,7 @@ class FermionicOperator(Hamiltonian):
             return False
 
         for term, coeff in reduced_self.terms_dict.items():
-            if term not in other.terms_dict:
+            if term not in reduced_other.terms_dict:
                 daggered_sorted_term, flip_sign = term.dagger().sort()
                 if daggered_sorted_term not in reduced_other.terms_dict:
                     return False
-- 
2.43.0


From 6afdac07c267e0e0c2bdafb85285ab378db5f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:19:38 +0000
Subject: [PATCH 49/81] fix: keep fermionic terms with three alternating
 operators on one mode

A product like a(1)*c(1)*a(1) equals a(1), but the standard form dropped it when another
operator preceded it.
---
 src/qrisp/operators/fermionic/fermionic_term.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_term.py b/src/qrisp/operators/fermionic/fermionic_term.py
index dcc0b1d..4d1e0f3 100644
--- a/src/qrisp/operators/fermionic/fermionic_term.py
+++ b/src/qrisp/operators/fermionic/fermionic_term.py
@@ -127,9 +127,6 @@ class FermionicTerm:
                 if ladder_list[i][1] == ladder_list[i + 1][1]:
                     flip_sign = 0
                     break
-                if i > 1 and ladder_list[i][0] == ladder_list[i - 1][0]:
-                    flip_sign = 0
-                    break
 
         return FermionicTerm(ladder_list), flip_sign
 
-- 
2.43.0


From 4836d4d2c698d2a3a661391daec88807fff20a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:08 +0000
Subject: [PATCH 50/81] fix: keep the imaginary part of fermionic terms

Merging a term with its adjoint added the coefficients without conjugating, so the imaginary
part cancelled. The trotterization now evolves terms with a complex coefficient as well.
---
 .../operators/fermionic/fermionic_operator.py |  1 +
 .../operators/fermionic/trotterization.py     | 25 +++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index 52cab40..b8fe812 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -148,6 +148,7 @@ class FermionicOperator(Hamiltonian):
                 if daggered_sorted_term in new_terms_dict:
                     sorted_term = daggered_sorted_term
                     flip_sign = daggered_flip_sign
+                    coeff = coeff.conjugate()
 
             # Compute the new coefficient.
             new_terms_dict[sorted_term] = flip_sign * coeff + new_terms_dict.get(sorted_term, 0)
diff --git a/src/qrisp/operators/fermionic/trotterization.py b/src/qrisp/operators/fermionic/trotterization.py
index e50f3e9..0fd5780 100644
--- a/src/qrisp/operators/fermionic/trotterization.py
+++ b/src/qrisp/operators/fermionic/trotterization.py
@@ -15,7 +15,9 @@
 ********************************************************************************
 """
 
-from qrisp import IterationEnvironment, conjugate, merge
+import numpy as np
+
+from qrisp import IterationEnvironment, QuantumEnvironment, conjugate, merge, p
 from qrisp.jasp import check_for_tracing_mode, jrange
 from qrisp.operators.hamiltonian_tools import group_up_iterable
 
@@ -109,10 +111,23 @@ def fermionic_trotterization(H, forward_evolution=True):
                             if factor == "Z":
                                 raise Exception("Fermionic matching failed: Z Operator found")
 
-                    qubit_term.simulate(
-                        -coeff * t / steps * qubit_operator.terms_dict[qubit_term] * (-1) ** int(forward_evolution),
-                        new_qarg,
-                    )
+                    # A complex coefficient is the coefficient of a rotated ladder term
+                    env = QuantumEnvironment()
+                    if isinstance(coeff, complex):
+                        ladder_factors = [i for i in qubit_term.factor_dict.items() if i[1] in ["A", "C"]]
+                        if coeff.imag != 0 and ladder_factors:
+                            anchor, factor = ladder_factors[0]
+                            phase = np.angle(coeff) if factor == "A" else -np.angle(coeff)
+                            env = conjugate(p)(phase, new_qarg[anchor])
+                            coeff = abs(coeff)
+                        else:
+                            coeff = coeff.real
+
+                    with env:
+                        qubit_term.simulate(
+                            -coeff * t / steps * qubit_operator.terms_dict[qubit_term] * (-1) ** int(forward_evolution),
+                            new_qarg,
+                        )
 
     def U(qarg, t=1, steps=1, iter=1):
         if check_for_tracing_mode():
-- 
2.43.0


From 2438ce22cf53a264eff9de085e5fca9c2529a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:48 +0000
Subject: [PATCH 51/81] fix: act where the surrounding control holds for
 inverted and conditional blocks

---
 src/qrisp/environments/control_environment.py | 51 +++++++++----------
 .../environments/quantum_conditionals.py      | 10 +++-
 2 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/src/qrisp/environments/control_environment.py b/src/qrisp/environments/control_environment.py
index d75dd67..e828464 100644
--- a/src/qrisp/environments/control_environment.py
+++ b/src/qrisp/environments/control_environment.py
@@ -95,6 +95,7 @@ class ControlEnvironment(QuantumEnvironment):
 
             self.ctrl_qubits = ctrl_qubits
             self.invert = invert
+            self.parent_cond_env = None
 
             self.manual_allocation_management = True
 
@@ -150,6 +151,18 @@ class ControlEnvironment(QuantumEnvironment):
                 if not type(env) == QuantumEnvironment:
                     break
 
+    def block_state(self):
+        """State of the condition truth value qubit, for which the block is executed."""
+        if self.parent_cond_env is not None:
+            return "1"
+
+        ctrl_state = self.ctrl_state if len(self.ctrl_qubits) == 1 else "1"
+
+        if self.invert:
+            ctrl_state = "0" if ctrl_state == "1" else "1"
+
+        return ctrl_state
+
     def compile(self):
         from qrisp import QuantumBool
         from qrisp.environments import ConditionEnvironment, CustomControlOperation
@@ -168,6 +181,10 @@ class ControlEnvironment(QuantumEnvironment):
             ctrl_qubits = list(self.ctrl_qubits)
             cond_compile_ctrl_state = self.ctrl_state
 
+            # Within a parent environment, an inverted condition must only be negated
+            # for those states, where the parent environment is executed
+            negate_in_parent = self.invert and self.parent_cond_env is not None
+
             if self.parent_cond_env is not None:
                 # In the parent case we also need to make sure that the code is executed
                 # if the parent environment is executed. A possible approach would be
@@ -195,18 +212,7 @@ class ControlEnvironment(QuantumEnvironment):
 
                 ctrl_qubits.append(self.parent_cond_env.condition_truth_value)
 
-                parent_ctrl_state = "1"
-
-                if isinstance(self.parent_cond_env, ControlEnvironment):
-                    if len(self.parent_cond_env.ctrl_qubits) == 1:
-                        if self.parent_cond_env.ctrl_state == "0" and not hasattr(self.parent_cond_env, "qbool"):
-                            parent_ctrl_state = "0"
-
-                    if self.parent_cond_env.invert:
-                        if parent_ctrl_state == "0":
-                            parent_ctrl_state = "1"
-                        elif parent_ctrl_state == "1":
-                            parent_ctrl_state = "0"
+                parent_ctrl_state = self.parent_cond_env.block_state()
 
                 cond_compile_ctrl_state = cond_compile_ctrl_state + parent_ctrl_state
 
@@ -223,6 +229,9 @@ class ControlEnvironment(QuantumEnvironment):
                     method=method,
                 )
 
+                if negate_in_parent:
+                    mcx(ctrl_qubits[-1:], self.condition_truth_value, ctrl_state=parent_ctrl_state)
+
             perm_lock(ctrl_qubits)
             # unlock(self.condition_truth_value)
 
@@ -300,20 +309,7 @@ class ControlEnvironment(QuantumEnvironment):
                         )
                     continue
 
-                if len(ctrl_qubits) == 1:
-                    ctrl_state = self.ctrl_state
-                else:
-                    ctrl_state = "1"
-
-                if self.invert:
-                    new_ctrl_state = ""
-                    for c in ctrl_state:
-                        if c == "1":
-                            new_ctrl_state += "0"
-                        else:
-                            new_ctrl_state += "1"
-
-                    ctrl_state = new_ctrl_state
+                ctrl_state = self.block_state()
 
                 if self.condition_truth_value in instruction.qubits:
                     self.env_qs.append(
@@ -349,6 +345,9 @@ class ControlEnvironment(QuantumEnvironment):
                 else:
                     method = "gray_pt_inv"
 
+                if negate_in_parent:
+                    mcx(ctrl_qubits[-1:], self.condition_truth_value, ctrl_state=parent_ctrl_state)
+
                 mcx(
                     ctrl_qubits,
                     self.qbool,
diff --git a/src/qrisp/environments/quantum_conditionals.py b/src/qrisp/environments/quantum_conditionals.py
index fd309b7..191c879 100644
--- a/src/qrisp/environments/quantum_conditionals.py
+++ b/src/qrisp/environments/quantum_conditionals.py
@@ -361,6 +361,10 @@ class ConditionEnvironment(QuantumEnvironment):
                 if not type(env) == QuantumEnvironment:
                     break
 
+    def block_state(self):
+        """State of the condition truth value qubit, for which the block is executed."""
+        return "1"
+
     # Compile method
     def compile(self):
         from qrisp.environments.control_environment import (
@@ -405,9 +409,11 @@ class ConditionEnvironment(QuantumEnvironment):
                     cond_eval_bool[0],
                 ]
 
+                toffoli_ctrl_state = self.parent_cond_env.block_state() + "1"
+
                 from qrisp import mcx
 
-                mcx(toffoli_qb_list, self.condition_truth_value, method="gray_pt")
+                mcx(toffoli_qb_list, self.condition_truth_value, ctrl_state=toffoli_ctrl_state, method="gray_pt")
 
             else:
                 # Without any parent environment we can simply synhesize the
@@ -516,7 +522,7 @@ class ConditionEnvironment(QuantumEnvironment):
             # this environments truth value
             if self.parent_cond_env is not None:
                 self.parent_cond_env.sub_condition_envs.extend(self.sub_condition_envs + [self])
-                mcx(toffoli_qb_list, self.qbool, method="gray_pt_inv")
+                mcx(toffoli_qb_list, self.qbool, ctrl_state=toffoli_ctrl_state, method="gray_pt_inv")
                 self.qbool.delete()
 
             # We now uncompute the environments' truth value
-- 
2.43.0


From b47b2cce615a0570850237431b4e1bc74f1b0cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:48 +0000
Subject: [PATCH 52/81] fix: move the control qubit of custom control functions
 into the surrounding control

---
 .../custom_control_environment.py             | 22 +++++++++++++++++++
 src/qrisp/misc/utility.py                     |  4 ++++
 2 files changed, 26 insertions(+)

diff --git a/src/qrisp/environments/custom_control_environment.py b/src/qrisp/environments/custom_control_environment.py
index 15279fa..1d9555c 100644
--- a/src/qrisp/environments/custom_control_environment.py
+++ b/src/qrisp/environments/custom_control_environment.py
@@ -294,6 +294,28 @@ class CustomControlEnvironment(QuantumEnvironment):
         QuantumEnvironment.__enter__(self)
         merge([self.env_qs, self.control_qb.qs()])
 
+    def retarget_control_qb(self, new_control_qb):
+        """Replaces the control qubit also for the control environments entered by the custom control function."""
+        from qrisp import ControlEnvironment, QuantumEnvironment
+
+        data = list(self.env_data)
+
+        while data:
+            env = data.pop()
+
+            if not isinstance(env, QuantumEnvironment):
+                continue
+
+            data.extend(env.env_data)
+
+            if isinstance(env, ControlEnvironment) and self.control_qb in env.ctrl_qubits:
+                env.ctrl_qubits = [new_control_qb if qb == self.control_qb else qb for qb in env.ctrl_qubits]
+
+                if env.condition_truth_value == self.control_qb:
+                    env.condition_truth_value = new_control_qb
+
+        self.control_qb = new_control_qb
+
     def compile(self):
 
         original_data = list(self.env_qs.data)
diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 91033e3..26ffa6a 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1347,6 +1347,7 @@ def find_calling_line(level=0):
 
 def retarget_instructions(data, source_qubits, target_qubits):
     from qrisp import QuantumEnvironment
+    from qrisp.environments import CustomControlEnvironment
 
     for i in range(len(data)):
         instr = data[i]
@@ -1354,6 +1355,9 @@ def retarget_instructions(data, source_qubits, target_qubits):
         if isinstance(instr, QuantumEnvironment):
             retarget_instructions(instr.original_data, source_qubits, target_qubits)
             retarget_instructions(instr.env_data, source_qubits, target_qubits)
+
+            if isinstance(instr, CustomControlEnvironment) and instr.control_qb in source_qubits:
+                instr.retarget_control_qb(target_qubits[source_qubits.index(instr.control_qb)])
             continue
 
         for j in range(len(instr.qubits)):
-- 
2.43.0


From ce2001b60737bb428d5b4f320b96842c3bdd7ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:48 +0000
Subject: [PATCH 53/81] fix: respect inverted control in Jasp mode

---
 src/qrisp/environments/control_environment.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qrisp/environments/control_environment.py b/src/qrisp/environments/control_environment.py
index e828464..d1b16f2 100644
--- a/src/qrisp/environments/control_environment.py
+++ b/src/qrisp/environments/control_environment.py
@@ -82,6 +82,11 @@ class ControlEnvironment(QuantumEnvironment):
             if not isinstance(ctrl_qubits, list):
                 ctrl_qubits = [ctrl_qubits]
 
+            if invert:
+                if len(ctrl_qubits) > 1:
+                    raise NotImplementedError("Inverted control on multiple qubits is not available in Jasp mode")
+                self.ctrl_state = "0" if self.ctrl_state == "1" else "1"
+
         else:
             if isinstance(ctrl_qubits, list):
                 self.arg_qs = multi_session_merge([qb.qs() for qb in ctrl_qubits])
-- 
2.43.0


From fe63fc35acd502418791952004672c9d1c780a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:58 +0000
Subject: [PATCH 54/81] fix: refuse unknown ansatz types in the electronic
 structure problem

---
 src/qrisp/algorithms/vqe/problems/electronic_structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/algorithms/vqe/problems/electronic_structure.py b/src/qrisp/algorithms/vqe/problems/electronic_structure.py
index d82633b..9dcaed3 100644
--- a/src/qrisp/algorithms/vqe/problems/electronic_structure.py
+++ b/src/qrisp/algorithms/vqe/problems/electronic_structure.py
@@ -553,6 +553,9 @@ def electronic_structure_problem(arg, active_orb=None, active_elec=None, ansatz_
 
     from qrisp.vqe import VQEProblem
 
+    if ansatz_type != "QCCSD":
+        raise ValueError(f"Don't know the ansatz type {ansatz_type}. Available is QCCSD.")
+
     if isinstance(arg, pyscf.gto.Mole):
         data = electronic_data(arg)
     elif isinstance(arg, dict):
-- 
2.43.0


From 69a23107e3d5edf1d669eb25d11a2cc4035c5b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:44 +0000
Subject: [PATCH 55/81] fix: place the sign of phase gates at the permuted
 qubits in the commuting change of basis

The positions of the S gates were permuted in the wrong direction when the signs
of the transformed Pauli terms were computed. Sets of terms whose permutation is
not its own inverse got wrong signs.
---
 src/qrisp/operators/qubit/qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index d06bbbe..757eb92 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1237,10 +1237,10 @@ class QubitOperator(Hamiltonian):
                 # No factor (-1) occurs if H S^{-1} P S H is applied (i.e., H and S) for any P in {X,Y,Z}
 
                 s_vector = np.zeros(m, dtype=int)
-                s_vector[s_list] = 1
+                s_vector[perm[s_list]] = 1
                 h_vector = np.zeros(m, dtype=int)
                 h_vector[h_list] = 1
-                sh_vector = s_vector[perm] + h_vector % 2
+                sh_vector = (s_vector + h_vector) % 2
                 sign_vector = sh_vector @ (x_matrix[qb_indices] * z_matrix[qb_indices]) % 2
 
                 # Lower triangular part of A
-- 
2.43.0


From 816b2f366c0d03811e1cf80cec5ec5b35f7a288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:44 +0000
Subject: [PATCH 56/81] fix: keep projectors and Pauli Z factors on the same
 qubit in separate commuting groups

The commuting change of basis acts with entangling gates on the qubits of the
Pauli factors. Projectors on those qubits were left as they are and therefore
measured and evolved in the wrong basis.
---
 src/qrisp/operators/qubit/qubit_term.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qrisp/operators/qubit/qubit_term.py b/src/qrisp/operators/qubit/qubit_term.py
index 9c5e08f..fd0d4e8 100644
--- a/src/qrisp/operators/qubit/qubit_term.py
+++ b/src/qrisp/operators/qubit/qubit_term.py
@@ -683,6 +683,11 @@ class QubitTerm:
         sign_flip = 1
 
         for key in keys:
+            # The basis of the Pauli factors may be changed by entangling gates,
+            # projectors on the same qubit are therefore not compatible with them.
+            if {a.get(key), b.get(key)} in [{"Z", "P0"}, {"Z", "P1"}]:
+                return False
+
             factor_a = PAULI_TABLE[a.get(key, "I"), b.get(key, "I")]
             factor_b = PAULI_TABLE[b.get(key, "I"), a.get(key, "I")]
 
-- 
2.43.0


From aef2da1d537b5db84288766307a6d380b60136f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:11 +0000
Subject: [PATCH 57/81] fix: extend unsigned numbers above their highest bit in
 in-place multiplication

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 3fb7144..86e6f77 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -1040,9 +1040,11 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
     if mult_int != 1:
         if treat_overflow:
             extension_size = int(np.ceil(np.log2(abs(mult_int))))
-            qf.extend(extension_size, position=qf.size - 1)
             if qf.signed:
+                qf.extend(extension_size, position=qf.size - 1)
                 cx(qf[-1], qf[-1 - extension_size : -1])
+            else:
+                qf.extend(extension_size, position=qf.size)
 
         from qrisp.alg_primitives.arithmetic.SBP_arithmetic import QFT_inpl_mult
 
-- 
2.43.0


From b1ef9762a276d95f5eedb43eab31a0baee11f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:11 +0000
Subject: [PATCH 58/81] fix: compare the equality of quantum numbers with
 different signed or disjoint ranges

---
 .../alg_primitives/arithmetic/comparisons.py    | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/comparisons.py b/src/qrisp/alg_primitives/arithmetic/comparisons.py
index 0f7c872..a60a1f1 100644
--- a/src/qrisp/alg_primitives/arithmetic/comparisons.py
+++ b/src/qrisp/alg_primitives/arithmetic/comparisons.py
@@ -221,12 +221,27 @@ def equal(qf_0, qf_1):
         r = jnp.minimum(e0 + m0, e1 + m1)
         d = r - l
 
+        # The qubits from these indices on are more significant than every mantissa bit of the other operand.
+        u0 = jnp.clip(e1 + m1 - e0, 0, m0)
+        u1 = jnp.clip(e0 + m0 - e1, 0, m1)
+
         def conjugator(qf_0, qf_1):
             for i in jrange(d):
                 cx(qf_1[i + l - e1], qf_0[i + l - e0])
 
+            # If both operands are signed, the more significant qubits have to agree with the sign.
+            if qf_1.signed and qf_0.signed:
+                for i in jrange(m0 - u0):
+                    cx(qf_1.sign(), qf_0[i + u0])
+                for i in jrange(m1 - u1):
+                    cx(qf_1.sign(), qf_1[i + u1])
+
         mcx_qubits += qf_1.reg[: l - e1]
-        mcx_qubits += qf_1.reg[e0 + m0 - e1 : e1 + m1 - e1]
+        mcx_qubits += qf_1.reg[u1:m1]
+
+        # A negative qf_0 whose bits are all less significant than those of qf_1 can not be equal to qf_1
+        if qf_1.signed and qf_0.signed:
+            mcx_qubits += qf_1.reg[m1 : m1 + jnp.clip(e1 - e0 - m0, 0, 1)]
 
         with conjugate(conjugator)(qf_0, qf_1):
             mcx(mcx_qubits, eq_qbl, ctrl_state=0)
-- 
2.43.0


From 7676874c25181229b75ae6c160fd99388a3ea476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:28 +0000
Subject: [PATCH 59/81] fix: keep the phases of the controlled Gidney adder
 with a quantum summand

---
 .../alg_primitives/arithmetic/adders/gidney_adder.py  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
index bcdefe7..6be40ad 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
@@ -267,9 +267,10 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
     # MSB carry-out and sum.
     # The carry from position n-2 toggles b_qbs[n-1].
     if ctrl is not None:
-        mcx([ctrl, gidney_anc[n - 2]], b_qbs[n - 1], method="gidney")
+        # The target is not in the |0> state, so the Gidney AND can not be used here.
+        mcx([ctrl, gidney_anc[n - 2]], b_qbs[n - 1])
         if c_out_qb is None:
-            mcx([ctrl, a_qbs[n - 1]], b_qbs[n - 1], method="gidney")
+            mcx([ctrl, a_qbs[n - 1]], b_qbs[n - 1])
     # When c_out_qb is None:  b_qbs[n-1] is b's MSB
     #   — both the carry and a_qbs[n-1] contribute (full b += a).
     # When c_out_qb is not None:  c_out_qb was appended to b_qbs,
@@ -290,7 +291,7 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
         if ctrl is not None:
             # ctrl is already in the qubit list, so CustomControlEnvironment
             # takes the targeting_control=True path (no double-add).
-            mcx([ctrl, a_qbs[i]], b_qbs[i], method="gidney")
+            mcx([ctrl, a_qbs[i]], b_qbs[i])
             cx(gidney_anc[i - 1], a_qbs[i])
             cx(gidney_anc[i - 1], b_qbs[i])
         else:
@@ -484,7 +485,7 @@ def gidney_adder(
     if c_in_qb is not None:
         with control(n <= 1):
             if ctrl is not None:
-                mcx([ctrl, c_in_qb], b_qbs[0], method="gidney")
+                mcx([ctrl, c_in_qb], b_qbs[0])
             else:
                 cx(c_in_qb, b_qbs[0])
 
@@ -498,7 +499,7 @@ def gidney_adder(
     # The carry chain handles positions 1 .. n-1; the least-significant
     # bit is the only remaining XOR not yet performed.
     if ctrl is not None:
-        mcx([ctrl, a_qbs[0]], b_qbs[0], method="gidney")
+        mcx([ctrl, a_qbs[0]], b_qbs[0])
     else:
         cx(a_qbs[0], b_qbs[0])
 
-- 
2.43.0


From 703e5d208f470d940a6ab496a971f3ddf1e96b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:28 +0000
Subject: [PATCH 60/81] fix: set the carry of the controlled Cuccaro adder only
 where the control holds

---
 src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
index dade943..a3710a4 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
@@ -152,7 +152,10 @@ def cuccaro_adder(
 
     # cnot
     if c_out is not None:
-        cx(a[-1], ancilla2)
+        if ctrl is None:
+            cx(a[-1], ancilla2)
+        else:
+            mcx([ctrl, a[-1]], ancilla2)
 
     if ctrl is None:
         # iterator uma gate application
-- 
2.43.0


From b872751e79b48f764f2ce2150e25218b3220be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:28 +0000
Subject: [PATCH 61/81] fix: let the carry lookahead adder without T depth
 reduction add shorter summands and use radix one

---
 .../arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py  | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
index 5308fe1..e74b219 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
@@ -19,7 +19,7 @@ def qq_sum_path(a, b, c, R):
         # https://arxiv.org/abs/quant-ph/0406142
         # We can use the formula
         # S = A (+) B (+) C
-        cx(c[:-1], b[1:])
+        cx(c, b[1:])
         cx(a, b[: len(a)])
     else:
         i = 0
@@ -68,10 +68,7 @@ def qq_sum_path(a, b, c, R):
                 continue
 
             # Perform incrementation function
-            if R * j == 0:
-                lin_incr(b_block, c_out=c[j])
-            else:
-                lin_incr(b_block, c_in=c[j - 1], c_out=c[j])
+            lin_incr(b_block, c_in=c[j - 1])
 
 
 # This function is a version of the sum path that requires no uncomputation after
-- 
2.43.0


From 1f5c99e1cf59023ffdff0b48a26d42f8e08adb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:28 +0000
Subject: [PATCH 62/81] fix: round quantum numbers with a positive exponent to
 themselves

---
 src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py b/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
index 67ea8a2..dea9ca0 100644
--- a/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
+++ b/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
@@ -207,7 +207,7 @@ def q_floor(a: QuantumFloat) -> QuantumFloat:
 
     """
     b = a.duplicate()
-    for i in jrange(-a.exponent, a.size):
+    for i in jrange(jnp.maximum(-a.exponent, 0), a.size):
         cx(a[i], b[i])
 
     return b
-- 
2.43.0


From a9df569f8f069bc7960ed88edca36f0548a78ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:28 +0000
Subject: [PATCH 63/81] fix: extend the sign in the maximum and minimum of
 quantum numbers with different ranges

---
 .../arithmetic/arithmetic_tools.py            | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py b/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
index dea9ca0..1671639 100644
--- a/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
+++ b/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
@@ -60,7 +60,7 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
 
     # We calculate the overlap of bits with the same significance of a and b.
     l = jnp.maximum(a.mshape[0], b.mshape[0])
-    r = jnp.minimum(a.mshape[1], b.mshape[1])
+    r = jnp.maximum(l, jnp.minimum(a.mshape[1], b.mshape[1]))
 
     c = QuantumBool()
 
@@ -78,7 +78,7 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 )
 
         with control(c):
-            up_bd = jnp.minimum(a.size, l - a.exponent)
+            up_bd = jnp.minimum(a.msize, l - a.exponent)
             cx(a[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, a.exponent)
             cx(
@@ -87,9 +87,11 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
             )
             if a.signed:
                 cx(a.sign(), res.sign())
+                for i in jrange(a.mshape[1] - new_exponent, new_msize):
+                    cx(a.sign(), res[i])
 
         with control(c, 0):
-            up_bd = jnp.minimum(b.size, l - b.exponent)
+            up_bd = jnp.minimum(b.msize, l - b.exponent)
             cx(b[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, b.exponent)
             cx(
@@ -98,6 +100,8 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
             )
             if b.signed:
                 cx(b.sign(), res.sign())
+                for i in jrange(b.mshape[1] - new_exponent, new_msize):
+                    cx(b.sign(), res[i])
 
     c.delete()
 
@@ -140,7 +144,7 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
 
     # We calculate the overlap of bits with the same significance of a and b.
     l = jnp.maximum(a.mshape[0], b.mshape[0])
-    r = jnp.minimum(a.mshape[1], b.mshape[1])
+    r = jnp.maximum(l, jnp.minimum(a.mshape[1], b.mshape[1]))
 
     c = QuantumBool()
 
@@ -158,7 +162,7 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 )
 
         with control(c):
-            up_bd = jnp.minimum(a.size, l - a.exponent)
+            up_bd = jnp.minimum(a.msize, l - a.exponent)
             cx(a[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, a.exponent)
             cx(
@@ -167,9 +171,11 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
             )
             if a.signed:
                 cx(a.sign(), res.sign())
+                for i in jrange(a.mshape[1] - new_exponent, new_msize):
+                    cx(a.sign(), res[i])
 
         with control(c, 0):
-            up_bd = jnp.minimum(b.size, l - b.exponent)
+            up_bd = jnp.minimum(b.msize, l - b.exponent)
             cx(b[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, b.exponent)
             cx(
@@ -178,6 +184,8 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
             )
             if b.signed:
                 cx(b.sign(), res.sign())
+                for i in jrange(b.mshape[1] - new_exponent, new_msize):
+                    cx(b.sign(), res[i])
 
     c.delete()
 
-- 
2.43.0


From 715da5641aafb5e0b015833644dcb3fab01f5923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:55:27 +0000
Subject: [PATCH 64/81] fix: uncompute the carries of the radix one carry
 lookahead adder once

---
 .../arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
index d1337ec..86bb9af 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
@@ -84,7 +84,7 @@ def qq_qcla(a, b, radix_base=2, radix_exponent=1, t_depth_reduction=True):
         x(b)
 
     # In the case R = 1 we can use automatic uncomputation which seems to perform better
-    if R == 1:
+    if R == 1 and t_depth_reduction:
         c.uncompute()
         return
     # Delete c
-- 
2.43.0


From 5ae0bb899e514f7de4b3e27493fe9c06570ff4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:55:27 +0000
Subject: [PATCH 65/81] fix: correct the phases of products with a classical
 factor or into a given number

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 86e6f77..b3fa322 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -724,9 +724,12 @@ def hybrid_mult(
 
     if isinstance(output_qf, type(None)):
         output_qf = create_output_qf([y, x], op="mul")
+        # The single qubit phase correction below requires an output that holds exactly the product
+        holds_product = init_op == "h" and cl_factor == 1
 
     else:
         output_qf.exp_shift(-(x_exp + y_exp))
+        holds_product = False
 
     output_qf.extend(1, position=0)
 
@@ -806,7 +809,7 @@ def hybrid_mult(
 
     # Negate output_qf in order to perform the conditional addition/subtraction
 
-    if not phase_tolerant and terminal_op != "qft":
+    if not phase_tolerant and not (terminal_op == "qft" and holds_product):
         hybrid_mult_anc = QuantumVariable(1)
         if y.signed:
             cx(y[-1], hybrid_mult_anc[0])
@@ -823,7 +826,7 @@ def hybrid_mult(
         # because if y[i] is active output_qf has been negated
         applied_phases = U_g_inpl_adder(output_qf, x, -(2**i) * cl_factor)
 
-        if not phase_tolerant and terminal_op != "qft":
+        if not phase_tolerant and not (terminal_op == "qft" and holds_product):
             if i != 0:
                 cx(y[i - 1], hybrid_mult_anc[0])
             cx(y[i], hybrid_mult_anc[0])
@@ -848,7 +851,7 @@ def hybrid_mult(
             # of y (command [6])
             cx(y[i], output_qf)  # command [5]
 
-    if not phase_tolerant and terminal_op != "qft":
+    if not phase_tolerant and not (terminal_op == "qft" and holds_product):
         cx(y[i], hybrid_mult_anc[0])
         if y.signed:
             cx(y[-1], hybrid_mult_anc[0])
@@ -883,7 +886,7 @@ def hybrid_mult(
     if terminal_op == "qft":
         QFT(output_qf, inv=True, exec_swap=False)
 
-    if not phase_tolerant and terminal_op == "qft":
+    if not phase_tolerant and terminal_op == "qft" and holds_product:
         # This is a phase tolerant correction using only single qubit gates.
         # We found it by looking at the sbp of the correction using cp gates and
         # identified the sbp of x*y in it.
-- 
2.43.0


From d03717d3c7e9ce2ea662e7ef0e782cf1c104efee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:01 +0000
Subject: [PATCH 66/81] fix: add classical values with the radix one carry
 lookahead adder without T depth reduction

---
 .../adders/qcla/classical_quantum/cq_sum_path.py           | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
index d8fe76e..5cbac52 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
@@ -40,11 +40,14 @@ def cq_sum_path(a, b, c, R, ctrl=None):
         # https://arxiv.org/abs/quant-ph/0406142
         # We can use the formula
         # S = A (+) B (+) C
-        cx(c[:-1], b[1:])
+        cx(c, b[1:])
 
         for i in range(len(a)):
             if a[i] == "1":
-                x(b)
+                if ctrl is None:
+                    x(b[i])
+                else:
+                    cx(ctrl, b[i])
     else:
         # Execute addition using the corresponding carry values
         for i in range(len(c) + 1):
-- 
2.43.0


From 6abbabcbfe415190ee41a0024f64e25c7a320927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:04:36 +0000
Subject: [PATCH 67/81] fix: do not carry into the first block of the carry
 lookahead adder

---
 .../arithmetic/adders/qcla/classical_quantum/cq_sum_path.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
index 5cbac52..d11fab8 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
@@ -55,8 +55,10 @@ def cq_sum_path(a, b, c, R, ctrl=None):
             a_block = a[R * i : R * (i + 1)]
             b_block = b[R * i : R * (i + 1)]
 
-            if i == 0 and a_block != len(a_block) * "0":
-                gidney_adder(a_block, b_block, ctrl=ctrl)
+            if i == 0:
+                # There is no carry into the first block
+                if a_block != len(a_block) * "0":
+                    gidney_adder(a_block, b_block, ctrl=ctrl)
             elif a_block != len(a_block) * "0":
                 gidney_adder(a_block, b_block, c_in=c[i - 1], ctrl=ctrl)
             elif not check_if_fresh([c[i - 1]], c[i - 1].qs()):
-- 
2.43.0


From 3d6fb04ac2ca746d6fa14652cb02cfbcb1c40c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:34:18 +0000
Subject: [PATCH 68/81] fix: let the Cuccaro adder take lists of qubits and
 reduce classical values to the target

---
 .../arithmetic/adders/cuccaro_adder.py         | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
index a3710a4..c13fdc2 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
@@ -20,7 +20,7 @@ import jax.numpy as jnp
 from qrisp.circuit import Qubit
 from qrisp.core import QuantumVariable, cx, mcx, x
 from qrisp.environments import conjugate, custom_control
-from qrisp.jasp import check_for_tracing_mode, jlen, jrange
+from qrisp.jasp import DynamicQubitArray, check_for_tracing_mode, jlen, jrange
 from qrisp.misc import int_encoder
 from qrisp.qtypes import QuantumBool, QuantumFloat
 
@@ -86,9 +86,13 @@ def cuccaro_adder(
 
     """
     # convert the classical input to a quantum input
-    if not isinstance(a, QuantumVariable):
-        # create a QuantumFloat of the same size as the other quantum input
-        q_a = b.duplicate()
+    if not isinstance(a, (QuantumVariable, list, DynamicQubitArray)):
+        # create a QuantumVariable of the same size as the other quantum input
+        q_a = b.duplicate() if isinstance(b, QuantumVariable) else QuantumVariable(jlen(b))
+
+        # truncate the classical input to the size of the other quantum input
+        if isinstance(a, int) and not check_for_tracing_mode():
+            a = a % 2 ** len(b)
 
         with conjugate(int_encoder)(q_a, a):
             cuccaro_adder(q_a, b, c_in=c_in, c_out=c_out, ctrl=ctrl)
@@ -98,13 +102,13 @@ def cuccaro_adder(
         q_a.delete()
         return
 
-    if not isinstance(b, QuantumVariable):
+    if not isinstance(b, (QuantumVariable, list, DynamicQubitArray)):
         raise ValueError("The second argument must be of type QuantumVariable.")
 
     # when the inputs are of unequal length
     # pad the size of the input with the smaller size
-    dim_a = a.size
-    dim_b = b.size
+    dim_a = jlen(a)
+    dim_b = jlen(b)
 
     max_size = jnp.maximum(dim_a, dim_b)
 
-- 
2.43.0


From 69f13f479f27d129134cfc62e950cbb5fe1112ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:11 +0000
Subject: [PATCH 69/81] fix: keep the Montgomery shift in products of modular
 numbers with classical factors

---
 src/qrisp/qtypes/quantum_modulus.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/qtypes/quantum_modulus.py b/src/qrisp/qtypes/quantum_modulus.py
index e057abc..4afedde 100644
--- a/src/qrisp/qtypes/quantum_modulus.py
+++ b/src/qrisp/qtypes/quantum_modulus.py
@@ -411,8 +411,13 @@ class QuantumModulus(QuantumFloat):
             if isinstance(self.modulus, BigInteger):
                 if not isinstance(other, BigInteger):
                     other = _coerce_bigint_operand(other, self.modulus)
-                return cq_montgomery_multiply(other.get_larger(), self, self.modulus.get_larger(), shift)
-            return cq_montgomery_multiply(other, self, self.modulus, shift)
+                res = cq_montgomery_multiply(other.get_larger(), self, self.modulus.get_larger(), shift)
+            else:
+                res = cq_montgomery_multiply(other, self, self.modulus, shift)
+
+            # The product with a classical factor keeps the Montgomery shift
+            res.m = self.m
+            return res
         else:
             raise TypeError(f"Quantum modular multiplication with type {type(other)} not implemented")
 
-- 
2.43.0


From 37756f5ee9a3ae519305737a09f4da00c7bc572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:11 +0000
Subject: [PATCH 70/81] fix: multiply modular numbers with negative classical
 factors

---
 src/qrisp/qtypes/quantum_modulus.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qrisp/qtypes/quantum_modulus.py b/src/qrisp/qtypes/quantum_modulus.py
index 4afedde..5bc904f 100644
--- a/src/qrisp/qtypes/quantum_modulus.py
+++ b/src/qrisp/qtypes/quantum_modulus.py
@@ -407,6 +407,10 @@ class QuantumModulus(QuantumFloat):
                 cq_montgomery_multiply,
             )
 
+            # Reduce negative factors
+            if isinstance(other, (int, np.integer)) and isinstance(self.modulus, int) and other < 0:
+                other = int(other) % self.modulus
+
             shift = best_montgomery_shift(other, self.modulus)
             if isinstance(self.modulus, BigInteger):
                 if not isinstance(other, BigInteger):
@@ -441,6 +445,10 @@ class QuantumModulus(QuantumFloat):
             if isinstance(other, np.integer):
                 other = int(other)
 
+            # Reduce negative factors
+            if isinstance(other, int) and isinstance(self.modulus, int) and other < 0:
+                other = other % self.modulus
+
             shift = best_montgomery_shift(other, self.modulus)
             if isinstance(self.modulus, BigInteger):
                 if not isinstance(other, BigInteger):
-- 
2.43.0


From b6286d5944f04082eba6c011da18f7d07df75ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:21:42 +0000
Subject: [PATCH 71/81] fix: let the product of a quantum number with zero
 terminate

---
 src/qrisp/qtypes/quantum_float.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index 6d2a920..dd9913d 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -502,6 +502,9 @@ class QuantumFloat(QuantumVariable):
         if isinstance(other, QuantumFloat):
             return q_mult(self, other)
         elif isinstance(other, (int, np.integer)):
+            if other == 0:
+                return self.duplicate()
+
             bit_shift = 0
             while not other % 2:
                 other = other >> 1
-- 
2.43.0


From 28ae2afd101a182d1631629c645612fbd0702d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:21:42 +0000
Subject: [PATCH 72/81] fix: refuse the in-place multiplication of a quantum
 number with zero

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index b3fa322..8ee24e2 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -1018,6 +1018,9 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
             "Quantum inplace multiplication is restricted to classical values due to reversibility constraints"
         )
 
+    if mult_int == 0:
+        raise Exception("Tried to inplace-multiply QuantumFloat with zero (not reversible)")
+
     if mult_int < 0 and not qf.signed:
         raise Exception("Tried to inplace-multiply unsigned QuantumFloat with negative factor")
 
-- 
2.43.0


From cc41bf38e19a1744d8fa531c34b5e96a6d2fd870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:25:13 +0000
Subject: [PATCH 73/81] fix: keep exponent and sign in powers of quantum
 numbers

---
 src/qrisp/qtypes/quantum_float.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index dd9913d..717d781 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -628,6 +628,14 @@ class QuantumFloat(QuantumVariable):
             return res
         else:
             from qrisp import jasp_multiplyer
+            from qrisp.jasp import check_for_tracing_mode
+
+            if not check_for_tracing_mode() and self.signed:
+                from qrisp.alg_primitives.arithmetic import polynomial_encoder
+
+                res = QuantumFloat(self.size * power, self.exponent * power, signed=True)
+                polynomial_encoder([self], res, sp.symbols("x") ** power)
+                return res
 
             def power_conjugator(base, power, temp_results):
                 cx(base, temp_results[0])
@@ -635,9 +643,9 @@ class QuantumFloat(QuantumVariable):
                     (temp_results[i + 1] << jasp_multiplyer)(base, temp_results[i])
                     # (temp_results[i+1] << (lambda a, b : a * b))(base, temp_results[i])
 
-            temp_results = [QuantumFloat((i + 1) * self.size) for i in range(power)]
+            temp_results = [QuantumFloat((i + 1) * self.size, (i + 1) * self.exponent) for i in range(power)]
 
-            res = QuantumFloat(self.size * power)
+            res = QuantumFloat(self.size * power, self.exponent * power)
             with conjugate(power_conjugator)(self, power, temp_results):
                 cx(temp_results[-1], res)
 
-- 
2.43.0


From 9bc286141fea7629f8f4a417407a4fc872823ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:59:55 +0000
Subject: [PATCH 74/81] fix: swap into a quantum index without value-dependent
 phases

---
 src/qrisp/alg_primitives/iterable_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/iterable_processing.py b/src/qrisp/alg_primitives/iterable_processing.py
index c4ef803..990e14b 100644
--- a/src/qrisp/alg_primitives/iterable_processing.py
+++ b/src/qrisp/alg_primitives/iterable_processing.py
@@ -211,11 +211,11 @@ def q_swap_into(q_array, index, qv):
     from qrisp import invert, swap
 
     with invert():
-        demux(q_array[0], index, q_array, ctrl_method="gray_pt")
+        demux(q_array[0], index, q_array)
 
     swap(q_array[0], qv)
 
-    demux(q_array[0], index, q_array, ctrl_method="gray_pt")
+    demux(q_array[0], index, q_array)
 
 
 def cyclic_shift(iterable, shift_amount=1):
-- 
2.43.0


From 412ed00d0932e88c3a5f28cfbd375a82598dbf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:59:55 +0000
Subject: [PATCH 75/81] fix: refuse in-place multiplication in adder supported
 Fourier transforms

---
 src/qrisp/alg_primitives/qft.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/alg_primitives/qft.py b/src/qrisp/alg_primitives/qft.py
index e40682d..058965d 100644
--- a/src/qrisp/alg_primitives/qft.py
+++ b/src/qrisp/alg_primitives/qft.py
@@ -50,6 +50,9 @@ def QFT_inner(
     if not is_inv(inplace_mult, n):
         raise Exception("Tried to perform non-invertible inplace multiplication during Fourier-Transform")
 
+    if inpl_adder is not None and inplace_mult % 2**n != 1 % 2**n:
+        raise Exception("In-place multiplication during Fourier-Transform is not available with an adder")
+
     if inpl_adder is None:
         accumulated_phases = np.zeros(n)
         for i in range(n):
-- 
2.43.0


From d20c1b1fc39ad4e106af1e2ecc2bea640a877062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:04:11 +0000
Subject: [PATCH 76/81] fix: do not call functions while looking for quantum
 sessions

---
 src/qrisp/core/session_merging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/session_merging_tools.py b/src/qrisp/core/session_merging_tools.py
index c8bf3a2..6532396 100644
--- a/src/qrisp/core/session_merging_tools.py
+++ b/src/qrisp/core/session_merging_tools.py
@@ -366,7 +366,7 @@ def recursive_qs_search(input):
         result = [input.env_qs]
     else:
         try:
-            if isinstance(input(), QuantumSession):
+            if isinstance(input, weakref.ref) and isinstance(input(), QuantumSession):
                 result = [input()]
         except TypeError:
             pass
-- 
2.43.0


From e69d4256f3572bf400c95a82e81b909a9ba69af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:17:01 +0000
Subject: [PATCH 77/81] fix: visit distant parities one bit at a time in Gray
 synthesis

---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 5835e76..9fdd03f 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -232,12 +232,12 @@ def single_qb_traversal(locations, bit_amount):
     # Solve Hamming TSP to get traversal sequence
     tr_seq = hamming_tsp(locations, bit_amount)
 
-    # Make sure 0 appears last
+    # Make sure the sequence starts and ends in 0 and changes one bit per step
     if tr_seq[-1] != 0:
-        tr_seq = tr_seq + [0]
+        tr_seq = tr_seq + hamming_movement(tr_seq[-1], 0, bit_amount)
 
     if tr_seq[0] != 0:
-        tr_seq = [0] + tr_seq
+        tr_seq = [0] + hamming_movement(0, tr_seq[0], bit_amount) + tr_seq[1:]
 
     # Turn into binaries
     tr_seq_bin = [int_as_array(x, bit_amount) for x in tr_seq]
-- 
2.43.0


From f9e6f3f65ce22f7578b23c90b484bc39cd437afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:18:31 +0000
Subject: [PATCH 78/81] fix: compensate the phases of multi-output Gray
 synthesis in the right bit order

---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 9fdd03f..dfed685 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -574,6 +574,9 @@ def gray_logic_synth(input_var, output_var, tt, phase_tolerant=False, lin_solve=
     input_var_dupl.qs.data = []
 
     if not phase_tolerant:
+        # The first qubit of the input variable is the least significant one of the
+        # truth table but the most significant one of the target phases
+        residual_phases = residual_phases.reshape(tt.bit_amount * [2]).transpose().flatten()
         gray_phase_synth(input_var_dupl, residual_phases)
 
     qc.data.extend(input_var_dupl.qs.data)
-- 
2.43.0


From 2b0c588c443b118b85f858eef3fc7dc84ee65389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:19:16 +0000
Subject: [PATCH 79/81] fix: load dictionaries whose values do not depend on
 every key qubit

---
 src/qrisp/core/quantum_dictionary.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/core/quantum_dictionary.py b/src/qrisp/core/quantum_dictionary.py
index de153ae..a9972c7 100644
--- a/src/qrisp/core/quantum_dictionary.py
+++ b/src/qrisp/core/quantum_dictionary.py
@@ -256,12 +256,16 @@ class QuantumDictionary(dict):
             synth_ancilla = QuantumVariable(len(qv_temp_0.qs.qubits) - qv_temp_0.size + qv_temp_1.size)
             quantum_key.append(synth_ancilla)
 
-        res_gate = qv_temp_0.qs.data[-1].op
+        synth_instr = qv_temp_0.qs.data[-1]
+        res_gate = synth_instr.op
         # res_gate = qv_temp_0.qs.to_gate("q_load")
+        # The synthesized gate doesn't act on keys which are not relevant for the values
+        used_qubits = [qv_temp_0.qs.qubits.index(qb) for qb in synth_instr.qubits]
         res_gate.is_qfree = True
-        res_gate.permeability = {i: i < n for i in range(res_gate.num_qubits)}
+        res_gate.permeability = {i: used_qubits[i] < n for i in range(res_gate.num_qubits)}
 
-        quantum_key[0].qs.append(res_gate, sum([qv.reg for qv in quantum_key], []) + value_qv.reg)
+        target_qubits = sum([qv.reg for qv in quantum_key], []) + value_qv.reg
+        quantum_key[0].qs.append(res_gate, [target_qubits[i] for i in used_qubits])
 
         if len(qv_temp_0.qs.qubits) != qv_temp_0.size + qv_temp_1.size:
             synth_ancilla.delete()
-- 
2.43.0


From ec7451594a8e2bef024c1da71544e203240a2760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:28:41 +0000
Subject: [PATCH 80/81] fix: weight the cost of invalid set covers with their
 probability

---
 src/qrisp/algorithms/qaoa/problems/minSetCover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/qaoa/problems/minSetCover.py b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
index e7d7b13..dc52e21 100644
--- a/src/qrisp/algorithms/qaoa/problems/minSetCover.py
+++ b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
@@ -84,7 +84,7 @@ def create_min_set_cover_cl_cost_function(sets, universe):
             if len(solution_sets) > 0 and set.union(*solution_sets) == universe:
                 cost += len(indices) * prob
             else:
-                cost += len(sets)
+                cost += len(sets) * prob
 
         return cost
 
-- 
2.43.0


From 5d5f4cc08a794d1c4f783b951a0b22ce40ec9b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:28:50 +0000
Subject: [PATCH 81/81] fix: use the neighbours of both nodes in the reductions
 of graph problems

---
 src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py   | 2 +-
 src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py
index e793cea..6609c78 100644
--- a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py
+++ b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py
@@ -80,7 +80,7 @@ def create_max_clique_replacement_routine(res, problem_updated):
     elif sign > 0:
         # keep the two items in solution and remove all that are not adjacent to both
 
-        intersect = list(set(list(graph.adj[max_item[0]].keys())) & set(list(graph.adj[max_item[0]].keys())))
+        intersect = list(set(list(graph.adj[max_item[0]].keys())) & set(list(graph.adj[max_item[1]].keys())))
         intersect.append(max_item[0])
         intersect.append(max_item[1])
         to_remove = [int(item) for item in graph.nodes() if item not in intersect]
diff --git a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py
index f1c808d..407ac4a 100644
--- a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py
+++ b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py
@@ -86,7 +86,7 @@ def create_max_indep_replacement_routine(res, problem_updated):
 
     elif sign < 0:
         # remove all nodes connected to both nodes
-        intersect = list(set(list(graph.adj[max_item[0]].keys())) & set(list(graph.adj[max_item[0]].keys())))
+        intersect = list(set(list(graph.adj[max_item[0]].keys())) & set(list(graph.adj[max_item[1]].keys())))
         new_graph.remove_nodes_from(intersect)
         exclusions += intersect
 
-- 
2.43.0

