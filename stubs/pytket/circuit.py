class CircBox:
    def __init__(self, circuit):
        self.circuit = circuit


class QControlBox:
    def __init__(self, op, n):
        self.op = op
        self.n = n


class Op:
    @staticmethod
    def create(optype, params=None):
        return (optype, params)
