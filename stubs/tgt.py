"""Common vocabulary of the framework models: a gate is a kind plus parameters."""


class G:
    def __init__(self, kind, nq, params=(), base=None, bits=None, body=None):
        self.kind = kind
        self.nq = nq
        self.params = list(params)
        self.base = base
        self.bits = bits
        self.body = body


class Step:
    def __init__(self, gate, qubits, clbits=(), cond=None):
        self.gate = gate
        self.qubits = list(qubits)
        self.clbits = list(clbits)
        self.cond = cond
