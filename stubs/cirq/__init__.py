from tgt import G, Step
import math


class LineQubit:
    def __init__(self, i):
        self.i = i

    def __lt__(self, other):
        return self.i < other.i

    def __eq__(self, other):
        return isinstance(other, LineQubit) and self.i == other.i

    def __hash__(self):
        return self.i


class Gate:
    kind = "gate"
    nq = 1

    def __call__(self, *qubits):
        return GateOperation(self, qubits)

    def on(self, *qubits):
        return GateOperation(self, qubits)

    def controlled(self, num_controls=1, control_values=None):
        return ControlledGate(self, num_controls, control_values)

    def num_qubits(self):
        return self.nq


class GateOperation:
    def __init__(self, gate, qubits):
        self.gate = gate
        self.qubits = tuple(qubits)


class ControlledGate(Gate):
    def __init__(self, sub_gate, num_controls=1, control_values=None):
        self.sub_gate = sub_gate
        self.n = num_controls
        if control_values is None:
            control_values = [1] * num_controls
        if len(control_values) != num_controls:
            raise ValueError("control values")
        self.control_values = [v if isinstance(v, tuple) else (v,) for v in control_values]
        self.kind = "ctrl"
        self.nq = sub_gate.nq + num_controls

    def num_controls(self):
        return self.n


class ControlledOperation:
    def __init__(self, controls, sub_operation, control_values=None):
        self.controls = tuple(controls)
        self.sub_operation = sub_operation
        if control_values is None:
            control_values = [1] * len(controls)
        self.control_values = [v if isinstance(v, tuple) else (v,) for v in control_values]
        self.qubits = self.controls + sub_operation.qubits
        self.gate = ControlledGate(sub_operation.gate, len(controls), control_values)


class EigenGate(Gate):
    shift = 0

    def __init__(self, exponent=1.0, global_shift=0.0):
        self.exponent = exponent
        self.shift = global_shift

    def __pow__(self, e):
        return type(self)(exponent=self.exponent * e)


class XPowGate(EigenGate):
    kind = "xpow"


class YPowGate(EigenGate):
    kind = "ypow"


class ZPowGate(EigenGate):
    kind = "zpow"


class HPowGate(EigenGate):
    kind = "hpow"


class CXPowGate(EigenGate):
    kind = "cxpow"
    nq = 2


class CZPowGate(EigenGate):
    kind = "czpow"
    nq = 2


class SwapPowGate(EigenGate):
    kind = "swappow"
    nq = 2


class Rx(XPowGate):
    def __init__(self, rads):
        self.exponent = rads / math.pi
        self.shift = -0.5


class Ry(YPowGate):
    def __init__(self, rads):
        self.exponent = rads / math.pi
        self.shift = -0.5


class Rz(ZPowGate):
    def __init__(self, rads):
        self.exponent = rads / math.pi
        self.shift = -0.5


class IdentityGate(Gate):
    kind = "ident"


class ResetChannel(Gate):
    kind = "reset"


class MeasurementGate(Gate):
    kind = "measure"


class GlobalPhaseGate(Gate):
    kind = "gphase"
    nq = 0

    def __init__(self, coefficient):
        self.coefficient = coefficient


def M(*qubits, key=None):
    return GateOperation(MeasurementGate(), qubits)


def rx(rads):
    return Rx(rads)


def ry(rads):
    return Ry(rads)


def rz(rads):
    return Rz(rads)


X = XPowGate()
Y = YPowGate()
Z = ZPowGate()
H = HPowGate()
S = ZPowGate(exponent=0.5)
T = ZPowGate(exponent=0.25)
CNOT = CXPowGate()
CX = CNOT
CZ = CZPowGate()
SWAP = SwapPowGate()
I = IdentityGate()
R = ResetChannel()


class Circuit:
    def __init__(self):
        self.ops = []

    def append(self, x):
        if isinstance(x, Circuit):
            self.ops.extend(x.ops)
        elif isinstance(x, (list, tuple)):
            for y in x:
                self.append(y)
        else:
            self.ops.append(x)

    def all_qubits(self):
        out = []
        for o in self.ops:
            for q in o.qubits:
                if q not in out:
                    out.append(q)
        return out

    def all_operations(self):
        return list(self.ops)
