seed("rsub_ulp", "C17", "src/qrisp/qtypes/quantum_float.py",
     [("            res += other + 2**res.exponent\n", "            res += other + 1\n")],
     PRE + """
for v in range(8):
    a = QuantumFloat(3, -1)
    a[:] = v / 2
    r = 3 - a
    assert r.get_measurement() == {3 - v / 2: 1.0}, (v, r.get_measurement())
""", "a classical number minus a fractional quantum number is off by half a unit", needs="a quantum number that is not an integer")

seed("mul_sign", "C17", "src/qrisp/qtypes/quantum_float.py",
     [("            if self.signed or other < 0:\n", "            if self.signed:\n")],
     PRE + """
for v in range(4):
    a = QuantumFloat(2)
    a[:] = v
    r = a * -3
    assert r.get_measurement() == {-3 * v: 1.0}, (v, r.get_measurement())
""", "an unsigned quantum number times a negative classical number is given without a sign", needs="an unsigned number and a negative factor")

seed("half_sign", "C17", "src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py",
     [("        cx(qf[-1], qf[bit_shift - 1 : -1])\n", "        cx(qf[-1], qf[bit_shift:-1])\n")],
     PRE + """
for v in range(-4, 4, 2):
    a = QuantumFloat(2, signed=True)
    a[:] = v
    a *= 1.5
    assert a.get_measurement() == {v * 1.5: 1.0}, (v, a.get_measurement())
""", "multiplying a signed number in place with a fraction loses the sign in the freed digits", needs="a negative number and a fractional factor")

seed("uint_lt_bound", "C18", "src/qrisp/alg_primitives/arithmetic/uint_clifford_t_comparisons.py",
     [("    with control(b > 2**a.size):\n", "    with control(b > 2**a.size + 1):\n")],
     PRE + """
from qrisp import uint_lt, gidney_adder
a = QuantumFloat(3)
h(a)
r = uint_lt(a, 9, gidney_adder)
assert r.get_measurement() == {True: 1.0}, r.get_measurement()
""", "the comparison with the first classical number above the range gives false", needs="a classical bound of one more than the number of values")

seed("cuccaro_cin_dirty", "C18", "src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py",
     [("    if c_in is not None:\n        cx(c_in, ancilla[0])\n\n    # delete the ancilla", "    # delete the ancilla")],
     PRE + """
b = QuantumFloat(2); c = QuantumBool()
b[:] = 1
h(c)
cuccaro_adder(1, b, c_in=c)
with invert():
    cuccaro_adder(1, b, c_in=c)
cuccaro_adder(1, b, c_in=c)
rest = QuantumVariable(8, qs=b.qs)
assert rest.get_measurement() == {"0" * 8: 1.0}, rest.get_measurement()
""", "the Cuccaro adder gives back a carry qubit that still holds the carry that went in", needs="a carry going in")

seed("mont_add_shift", "C19", "src/qrisp/alg_primitives/arithmetic/modular_arithmetic/modular_qft_addition.py",
     [("            b += pow(2, i - a.m, a.modulus)\n", "            b += pow(2, i + abs(a.m), a.modulus)\n")],
     PRE + """
a = QuantumModulus(7); a.m = 1
a[:] = 3
b = QuantumModulus(7)
b[:] = 2
b += a
assert b.get_measurement() == {5: 1.0}, b.get_measurement()
""", "adding a modular number with a positive Montgomery shift to one without adds a wrong multiple", needs="a summand with a positive Montgomery shift")

seed("mod_mul_shift", "C19", "src/qrisp/alg_primitives/arithmetic/modular_arithmetic/modular_multiplication.py",
     [("    t.m = a.m + b.m\n", "    t.m = 2 * a.m\n")],
     PRE + """
a = QuantumModulus(7); b = QuantumModulus(7); c = QuantumModulus(7)
a[:] = 3; b[:] = 4; c[:] = 5
r = c * (a * b)
assert r.get_measurement() == {4: 1.0}, r.get_measurement()
""", "the product of a modular number with a product of modular numbers is decoded with the shift of the first factor only", needs="factors with different Montgomery shifts")
