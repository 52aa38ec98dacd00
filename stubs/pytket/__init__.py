from tgt import G, Step


class OpTypeNs:
    def __init__(self):
        for n in ("H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "SX", "SXdg", "V", "Vdg", "Rx", "Ry", "Rz", "U1", "U2", "U3",
                  "CX", "CY", "CZ", "CH", "CRx", "CRy", "CRz", "CU1", "CU3", "SWAP", "XXPhase", "YYPhase", "ZZPhase",
                  "Measure", "Reset", "Barrier", "noop", "CCX", "CSWAP", "Phase", "CnX", "PhasedX"):
            setattr(self, n, n)


OpType = OpTypeNs()


class Qubit:
    def __init__(self, name, index=0):
        self.name = name
        self.index = index


class Circuit:
    def __init__(self, n=0, m=0):
        self.n_qubits = n
        self.wires = list(range(n))
        self.bits = []
        self.steps = []
        self.name = None

    def add_qubit(self, q):
        self.wires.append(q)
        self.n_qubits = len(self.wires)

    def add_c_register(self, name, size):
        self.bits = [("bit", i) for i in range(size)]
        return self.bits

    def add_gate(self, optype, params, args):
        if not isinstance(params, list):
            params = [params]
        self.steps.append(Step(G("tk:" + optype, len(args), params), args))

    def add_circbox(self, box, args):
        self.steps.append(Step(G("circ", len(args), [], body=box.circuit), args))

    def add_qcontrolbox(self, box, args):
        self.steps.append(Step(G("qcontrolbox", len(args), []), args))
