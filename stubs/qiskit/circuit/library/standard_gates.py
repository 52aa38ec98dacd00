from qiskit.circuit.gate import mkgate


def XGate():
    return mkgate("x", 1, [])


def YGate():
    return mkgate("y", 1, [])


def ZGate():
    return mkgate("z", 1, [])


def HGate():
    return mkgate("h", 1, [])


def SGate():
    return mkgate("s", 1, [])


def SdgGate():
    return mkgate("sdg", 1, [])


def TGate():
    return mkgate("t", 1, [])


def TdgGate():
    return mkgate("tdg", 1, [])


def SXGate():
    return mkgate("sx", 1, [])


def SXdgGate():
    return mkgate("sxdg", 1, [])


def IGate():
    return mkgate("id", 1, [])


def RXGate(theta):
    return mkgate("rx", 1, [theta])


def RYGate(theta):
    return mkgate("ry", 1, [theta])


def RZGate(theta):
    return mkgate("rz", 1, [theta])


def PhaseGate(theta):
    return mkgate("p", 1, [theta])


def U1Gate(theta):
    return mkgate("u1", 1, [theta])


def U3Gate(theta, phi, lam):
    return mkgate("u3", 1, [theta, phi, lam])


def UGate(theta, phi, lam):
    return mkgate("u", 1, [theta, phi, lam])


def RGate(theta, phi):
    return mkgate("r", 1, [theta, phi])


def SwapGate():
    return mkgate("swap", 2, [])


def RXXGate(theta):
    return mkgate("rxx", 2, [theta])


def RYYGate(theta):
    return mkgate("ryy", 2, [theta])


def RZZGate(theta):
    return mkgate("rzz", 2, [theta])


def CPhaseGate(theta):
    return PhaseGate(theta).control()


def CXGate():
    return XGate().control()


def CYGate():
    return YGate().control()


def CZGate():
    return ZGate().control()


def CRXGate(theta):
    return RXGate(theta).control()


def CRYGate(theta):
    return RYGate(theta).control()


def CRZGate(theta):
    return RZGate(theta).control()


def CCXGate():
    return XGate().control(2)


def CSXGate():
    return SXGate().control()


def CU1Gate(theta):
    return U1Gate(theta).control()


def XXPlusYYGate(theta, beta=0, label=None):
    return mkgate("xx_plus_yy", 2, [theta, beta])
