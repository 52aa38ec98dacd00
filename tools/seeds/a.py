PRE = """
import warnings; warnings.filterwarnings("ignore")
import numpy as np
from qrisp import *
def same(A, B, tol=1e-4):
    A, B = np.asarray(A), np.asarray(B)
    k = np.unravel_index(np.argmax(abs(B)), B.shape)
    ph = A[k] / B[k]
    return abs(abs(ph) - 1) < tol and np.max(abs(A - ph * B)) < tol
"""

seed("qiskit_nested_ctrl", "C05", "src/qrisp/interface/converter/qiskit_converter.py",
     [("""            base_gate = create_qiskit_instruction(op.base_operation, params, exact_phase=True)
            qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
    elif""", """            base_gate = create_qiskit_instruction(op.base_operation, params, exact_phase=True)
            qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state)
    elif"""),
      ("""                base_gate = create_qiskit_instruction(op.base_operation, params, exact_phase=True)
                qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
""", """                qiskit_ins = create_qiskit_instruction(op, params)
""")],
     PRE + """
from qiskit.quantum_info import Operator
qc = QuantumCircuit(3)
qc.append(HGate().control(2, ctrl_state="01"), qc.qubits)
M = Operator(qc.to_qiskit().reverse_bits()).data
assert same(M, qc.get_unitary()), "Qiskit circuit differs"
""", "the Qiskit circuit tests the control values in reversed order", needs="mixed control states")

seed("swap_state", "C03", "src/qrisp/circuit/operation.py",
     [("definition_circ = fredkin_qc(num_ctrl_qubits, ctrl_state, method)", "definition_circ = fredkin_qc(num_ctrl_qubits, method=method)")],
     PRE + """
qc = QuantumCircuit(3)
qc.append(SwapGate().control(1, ctrl_state="0"), qc.qubits)
U = qc.transpile().get_unitary()
assert abs(U[0b001, 0b010]) > 0.99 and abs(U[0b101, 0b101]) > 0.99, "swap controlled on 0"
""", "a swap controlled on zero acts when the control is one")

seed("pytket_ryy", "C05", "src/qrisp/interface/converter/pytket_converter.py",
     [('            "rxx",\n            "rzz",\n            "ryy",\n', '            "rxx",\n            "rzz",\n')],
     PRE + """
from qrisp.circuit import Operation
d = QuantumCircuit(2)
d.rx(np.pi / 2, d.qubits[0]); d.rx(np.pi / 2, d.qubits[1]); d.rzz(0.3, d.qubits[0], d.qubits[1])
d.rx(-np.pi / 2, d.qubits[0]); d.rx(-np.pi / 2, d.qubits[1])
qc = QuantumCircuit(2)
qc.append(Operation(name="ryy", num_qubits=2, definition=d, params=[0.3]), qc.qubits)
assert same(qc.to_pytket().get_unitary(), qc.get_unitary()), "pytket circuit differs"
""", "the angle of ryy is handed to pytket in radians instead of half turns", needs="an operation named ryy, for example one defined by the user")

