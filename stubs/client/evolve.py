"""A client program: evolution under operators and measurement of operators."""
from qrisp import QuantumVariable, QuantumBool, control, invert
from qrisp.operators.qubit.measurement import QubitOperatorMeasurement


def basis(H, n, method):
    qv = QuantumVariable(n)
    D = H.change_of_basis(qv, method)
    return qv.reg, qv.qs, D


def term(T, coeff, n, controlled, inverted):
    qv = QuantumVariable(n)
    if controlled:
        c = QuantumBool(qs=qv.qs)
        reg = [c[0]] + list(qv.reg)
        with control(c[0]):
            if inverted:
                with invert():
                    T.simulate(coeff, qv)
            else:
                T.simulate(coeff, qv)
    elif inverted:
        reg = list(qv.reg)
        with invert():
            T.simulate(coeff, qv)
    else:
        reg = list(qv.reg)
        T.simulate(coeff, qv)
    return reg, qv.qs


def evolve(H, n, options, t, steps, iter):
    qv = QuantumVariable(n)
    U = H.trotterization(**options)
    U(qv, t=t, steps=steps, iter=iter)
    return list(qv.reg), qv.qs


def groups(H, method):
    H = H.hermitize().eliminate_ladder_conjugates().apply_threshold(0)
    m = QubitOperatorMeasurement(H, method)
    return list(zip(m.change_of_basis_gates, m.measurement_operators))


def unitaries(H, n):
    us, cs = H.unitaries()
    out = []
    for u in us:
        qv = QuantumVariable(n)
        u(qv)
        out.append((list(qv.reg), qv.qs))
    return out, cs
