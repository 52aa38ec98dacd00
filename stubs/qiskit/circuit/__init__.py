import sympy
from qiskit.circuit.gate import ControlledGate, Instruction, mkgate, IfElse
from qiskit import QuantumRegister, ClassicalRegister, QuantumCircuit


class ParameterExpression:
    pass


def Parameter(name):
    return sympy.Symbol(name)


def Measure():
    return mkgate("measure", 1, [])


def Reset():
    return mkgate("reset", 1, [])


def Barrier(n):
    return mkgate("barrier", n, [])


def IfElseOp(condition, true_body, false_body=None, label=None):
    return IfElse(condition, true_body, false_body)
