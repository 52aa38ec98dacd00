seed("combine_ctrl_state", "C07", "src/qrisp/circuit/pass_management/passes/combine_single_qubit_gates.py",
     [("""                        num_ctrl_qubits=len(op.ctrl_state),
                        ctrl_state=op.ctrl_state,
""", """                        num_ctrl_qubits=len(op.ctrl_state),
""")],
     PRE + """
from qrisp.circuit.pass_management.passes import combine_single_qubit_gates
sub = QuantumCircuit(1)
sub.h(0); sub.t(0)
qc = QuantumCircuit(2)
qc.append(sub.to_gate().control(1, ctrl_state="0"), qc.qubits)
assert same(combine_single_qubit_gates(qc).get_unitary(), qc.get_unitary()), "the pass changed the circuit"
""", "combining single qubit gates inside a gate controlled on zero turns the control to one", needs="custom gates controlled on 0")

seed("gray_toffoli_state", "C07", "src/qrisp/circuit/pass_management/passes/gray_synth_toffoli.py",
     [("ctrl_state_wrap(_get_gray_toffoli_qc(), op.ctrl_state)", "ctrl_state_wrap(_get_gray_toffoli_qc(), op.ctrl_state[::-1])")],
     PRE + """
from qrisp.circuit.pass_management.passes import gray_synth_toffoli
qc = QuantumCircuit(3)
qc.append(XGate().control(2, ctrl_state="01"), qc.qubits)
assert same(gray_synth_toffoli(qc).transpile().get_unitary(), qc.transpile().get_unitary()), "the pass changed the circuit"
""", "the resynthesized Toffoli gate tests the control values in reversed order", needs="mixed control states")

seed("jones_inverse_state", "C06", "src/qrisp/alg_primitives/mcx_algs/jones.py",
     [("        return JonesToffoli(self.ctrl_state)", "        return JonesToffoli()")],
     PRE + """
q = QuantumVariable(2); t = QuantumBool()
with invert():
    mcx(q, t, method="jones", ctrl_state="01")
x(q[1])
res = multi_measurement([q, t])
print(res)
assert list(res)[0][1] in (True, False)
r2 = None
q2 = QuantumVariable(2); t2 = QuantumBool()
mcx(q2, t2, method="jones", ctrl_state="00")
with invert():
    mcx(q2, t2, method="jones", ctrl_state="00")
assert t2.get_measurement() == {False: 1.0}, "jones toffoli and its inverse do not cancel"
""", "the inverse of a measurement based Toffoli gate forgets the control state", needs="inverting a Toffoli gate with zeros in its control state")
