from tgt import G, Step
from pennylane import measurements
from pennylane import wires

TAPE = []


class PLOp(G):
    def __init__(self, kind, params, wires, base=None, bits=None):
        G.__init__(self, kind, len(wires), params, base=base, bits=bits)
        self.wires = list(wires)


class Recording:
    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        return False


class QueuingManager:
    @staticmethod
    def stop_recording():
        return Recording()


def apply(op):
    TAPE.append(op)
    return op


def adjoint(op):
    return PLOp("adj", [], op.wires, base=op)


def ctrl(op, control, control_values=None):
    if control_values is None:
        control_values = [1] * len(control)
    if len(control_values) != len(control):
        raise ValueError("control values")
    return PLOp("ctrl", [], list(control) + op.wires, base=op, bits="".join(str(int(v)) for v in control_values))


def measure(wires):
    TAPE.append(PLOp("measure", [], wires))


class Maker:
    def __init__(self, kind):
        self.kind = kind

    def __call__(self, *params, wires):
        return PLOp("pl:" + self.kind, params, wires)


X = Maker("X")
Y = Maker("Y")
Z = Maker("Z")
PauliX = X
PauliY = Y
PauliZ = Z
Hadamard = Maker("Hadamard")
H = Hadamard
RX = Maker("RX")
RY = Maker("RY")
RZ = Maker("RZ")
PhaseShift = Maker("PhaseShift")
U1 = Maker("PhaseShift")
U3 = Maker("U3")
Rot = Maker("Rot")
IsingXX = Maker("IsingXX")
IsingYY = Maker("IsingYY")
IsingZZ = Maker("IsingZZ")
IsingXY = Maker("IsingXY")
SWAP = Maker("SWAP")
S = Maker("S")
T = Maker("T")
SX = Maker("SX")
Identity = Maker("Identity")
GlobalPhase = Maker("GlobalPhase")
CNOT = Maker("CNOT")
CY = Maker("CY")
CZ = Maker("CZ")
