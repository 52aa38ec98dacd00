seed("shift_sign", "C20", "src/qrisp/alg_primitives/iterable_processing.py",
     [("                cyclic_shift(iterable, -(2 ** (shift_amount.mshape[1])))\n", "                cyclic_shift(iterable, 2 ** (shift_amount.mshape[1]))\n")],
     PRE + """
for v in (-4, -3, -1, 2):
    a = QuantumVariable(5)
    a[:] = "10000"
    k = QuantumFloat(2, signed=True, qs=a.qs)
    k[:] = v
    cyclic_shift(a, k)
    want = ["0"] * 5
    want[v % 5] = "1"
    assert a.get_measurement() == {"".join(want): 1.0}, (v, a.get_measurement())
""", "shifting by a negative quantum number moves the elements to the wrong side", needs="a length that does not divide twice the weight of the sign")

seed("tag_zero_phase", "C20", "src/qrisp/algorithms/grover/grover_tools.py",
     [("            mcp(phase, qubit_list, ctrl_state=ctrl_state + \"1\")\n", "            mcp(phase, qubit_list, ctrl_state=state)\n")],
     PRE + """
from qrisp.grover import tag_state
for v in range(4):
    a = QuantumFloat(2)
    h(a)
    tag_state({a: v}, phase=0.7)
    f = a.qs.statevector("function")
    ref = f({a: (v + 1) % 4})
    for u in range(4):
        ph = np.angle(f({a: u}) / ref)
        assert abs(ph - (0.7 if u == v else 0)) < 1e-4, (v, u, ph)
""", "a tag with a phase other than a flip marks the wrong value", needs="a phase other than pi and a value whose top bit is zero")

seed("parity_target", "C21", "src/qrisp/algorithms/qaoa/problems/eThrLinTwo.py",
     [("                rz((-1) ** clause[3] * gamma, qv[clause[2]])\n", "                rz((-1) ** clause[3] * gamma, qv[max(clause[:3])])\n")],
     PRE + """
from qrisp.algorithms.qaoa.problems.eThrLinTwo import create_e3lin2_cost_operator
op = create_e3lin2_cost_operator([[2, 1, 0, 1]])
a = QuantumVariable(3)
h(a)
op(a, 0.4)
f = a.qs.statevector("function")
for v in range(8):
    s = format(v, "03b")
    ph = np.angle(f({a: s}) / f({a: "000"}))
    want = 0 if s.count("1") % 2 == 0 else -0.4
    assert abs(ph - want) < 1e-4, (s, ph, want)
""", "the cost operator of a parity clause turns by the parity of a part of the clause", needs="a clause whose variables are not listed in increasing order")

seed("xy_odd", "C21", "src/qrisp/algorithms/qaoa/mixers.py",
     [("    for i in jrange(0, (N - 2 + N % 2) // 2):\n", "    for i in jrange(0, (N - 2) // 2):\n")],
     PRE + """
from qrisp.qaoa import XY_mixer
a = QuantumVariable(5)
a[:] = "00010"
XY_mixer(a, 0.3)
m = a.get_measurement()
assert m.get("00001", 0) > 1e-3, m
""", "the mixer that keeps the number of ones leaves out one pair of neighbours", needs="an odd number of qubits")
