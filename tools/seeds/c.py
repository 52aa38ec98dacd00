seed("bench_kwargs", "C09", "src/qrisp/algorithms/qaoa/qaoa_problem.py",
     [("                        temp_mes_kwargs = dict(mes_kwargs)\n", "                        temp_mes_kwargs = mes_kwargs\n")],
     PRE + """
from networkx import Graph
from qrisp.qaoa import maxcut_problem
G = Graph(); G.add_edges_from([(0, 1), (1, 2)])
p = maxcut_problem(G)
opts = {}
p.benchmark(lambda: QuantumVariable(3), depth_range=[1], shot_range=[100], iter_range=[2], optimal_solution="010", repetitions=1, mes_kwargs=opts)
assert opts == {}, opts
""", "a benchmark writes the number of shots into the options dictionary of the caller")

seed("adjoint_conj", "C13", "src/qrisp/operators/qubit/qubit_operator.py",
     [("            new_terms_dict[term.adjoint()] = np.conjugate(coeff)\n", "            new_terms_dict[term.adjoint()] = coeff\n")],
     PRE + """
from qrisp.operators import A, Z
H = 2j * A(0) * Z(1)
assert np.allclose(H.adjoint().to_array(2), H.to_array(2).conj().T)
""", "the adjoint of an operator keeps complex coefficients as they are", needs="complex coefficients")

seed("dagger_conj", "C14", "src/qrisp/operators/fermionic/fermionic_operator.py",
     [("            terms_dict[term.dagger()] = np.conj(coeff)\n", "            terms_dict[term.dagger()] = coeff\n")],
     PRE + """
from qrisp.operators import a, c
O = 1j * c(0) * a(1)
M = O.to_qubit_operator().to_array(2)
assert np.allclose(O.dagger().to_qubit_operator().to_array(2), M.conj().T)
""", "the adjoint of a fermionic operator keeps complex coefficients as they are", needs="complex coefficients")

seed("ctrl_int_order", "C15", "src/qrisp/environments/control_environment.py",
     [("            self.ctrl_state = bin_rep(ctrl_state, len(ctrl_qubits))[::-1]\n", "            self.ctrl_state = bin_rep(ctrl_state, len(ctrl_qubits))\n")],
     PRE + """
q = QuantumVariable(3)
x(q[0])
with control([q[0], q[1]], ctrl_state=1):
    x(q[2])
assert q.get_measurement() == {"101": 1.0}
""", "an integer control state of a block is read with the bits in reversed order", needs="an integer control state that is not a palindrome")

seed("custom_ctrl_zero", "C15", "src/qrisp/environments/control_environment.py",
     [("""                            invert_control=ctrl_state == "0",
""", """                            invert_control=self.ctrl_state == "0",
""")],
     PRE + """
@custom_control
def f(b, ctrl=None):
    if ctrl is None:
        x(b)
    else:
        cx(ctrl, b)
q = QuantumVariable(2)
with control(q[0], invert=True):
    f(q[1])
assert q.get_measurement() == {"01": 1.0}
""", "a function with a custom controlled version ignores an inverted control", needs="a custom control function in a block with inverted control")

seed("copy_qf_round", "C12", "src/qrisp/qtypes/quantum_float.py",
     [("    if min(qf1_sign_list) > min(qf2_sign_list) and not ignore_rounding_errors:\n", "    if min(qf1_sign_list) > max(qf2_sign_list) and not ignore_rounding_errors:\n")],
     PRE + """
a = QuantumFloat(3, -2); b = QuantumFloat(4, 0)
a[:] = 0.25
try:
    b.init_from(a)
except Exception:
    pass
else:
    raise SystemExit("a fraction was copied into an integer without an error")
""", "copying a fractional value into a coarser float drops bits without an error", needs="a target with fewer fractional bits than the source")

seed("floordiv_exp", "C12", "src/qrisp/qtypes/quantum_float.py",
     [("        if self.exponent < 0 or other.exponent < 0:\n            raise Exception(\"Tried to perform floor", "        if self.exponent < 0 and other.exponent < 0:\n            raise Exception(\"Tried to perform floor")],
     PRE + """
a = QuantumFloat(3, -1); b = QuantumFloat(2)
a[:] = 3.5; b[:] = 1
try:
    r = a // b
except Exception as e:
    assert "non-integer" in str(e), e
else:
    raise SystemExit("floor division of a fraction was accepted")
""", "floor division accepts a fractional operand as long as the other one is an integer", needs="one fractional operand")

seed("qaoa_bench_init", "C11", "src/qrisp/algorithms/qaoa/qaoa_problem.py",
     [("""                            mes_kwargs=temp_mes_kwargs,
                            init_type=init_type,
                            optimizer=optimizer,
""", """                            mes_kwargs=temp_mes_kwargs,
                            init_type=init_type,
""")],
     PRE + """
from networkx import Graph
from qrisp.qaoa import maxcut_problem
G = Graph(); G.add_edges_from([(0, 1), (1, 2)])
p = maxcut_problem(G)
seen = []
run = p.run
p.run = lambda *a, **k: (seen.append(k.get("optimizer", "default")), run(*a, **k))[1]
p.benchmark(lambda: QuantumVariable(3), depth_range=[1], shot_range=[100], iter_range=[2], optimal_solution="010", repetitions=1, optimizer="L-BFGS-B")
assert seen == ["L-BFGS-B"], seen
""", "a benchmark always uses the default optimizer")

