from tgt import G


class Instruction(G):
    def __init__(self, kind, nq, params, base=None, bits=None, body=None):
        G.__init__(self, kind, nq, params, base, bits, body)
        self.name = kind
        self.num_qubits = nq
        self.definition = body

    def control(self, num_ctrl_qubits=1, label=None, ctrl_state=None, annotated=None):
        n = num_ctrl_qubits
        if ctrl_state is None:
            bits = "1" * n
        elif isinstance(ctrl_state, str):
            if len(ctrl_state) != n:
                raise ValueError("control state does not fit")
            bits = ctrl_state[::-1]
        else:
            bits = "".join(str((ctrl_state >> i) & 1) for i in range(n))
        return ControlledGate(self, n, bits)

    def inverse(self, annotated=False):
        return Instruction("adj", self.nq, self.params, base=self)


class ControlledGate(Instruction):
    def __init__(self, base, n, bits):
        Instruction.__init__(self, "ctrl", base.nq + n, base.params, base=base, bits=bits)
        self.name = "c" + base.name
        self.base_gate = base
        self.num_ctrl_qubits = n
        self.ctrl_state = int(bits[::-1], 2)


class IfElse(Instruction):
    def __init__(self, condition, true_body, false_body):
        Instruction.__init__(self, "if", true_body.num_qubits, [true_body, false_body])
        self.name = "if_else"
        self.condition = condition
        self.condition_clbits = [condition[0]]
        self.true_body = true_body

    def is_control_flow(self):
        return True


def mkgate(kind, nq, params, body=None):
    return Instruction(kind, nq, params, body=body)
