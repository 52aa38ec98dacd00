from tgt import Step
from qiskit.circuit.gate import Instruction, mkgate


class QiskitError(Exception):
    pass


class Register:
    def __init__(self, size, name=None):
        self.size = size
        self.name = name
        self._bits = [Bit(self, i) for i in range(size)]

    def __iter__(self):
        return iter(self._bits)


class Bit:
    def __init__(self, reg, i):
        self._register = reg
        self._index = i


class QuantumRegister(Register):
    pass


class ClassicalRegister(Register):
    pass


class CircuitInstruction:
    def __init__(self, operation, qubits, clbits):
        self.operation = operation
        self.qubits = list(qubits)
        self.clbits = list(clbits)


class QuantumCircuit:
    def __init__(self, *regs):
        self.qubits = []
        self.clbits = []
        self.qregs = []
        self.cregs = []
        self.data = []
        self.global_phase = 0
        for r in regs:
            if isinstance(r, int):
                if not self.qubits:
                    r = QuantumRegister(r, "q")
                else:
                    r = ClassicalRegister(r, "c")
            if isinstance(r, list):
                self.add_bits(r)
            else:
                self.add_register(r)

    def add_bits(self, bits):
        for b in bits:
            if isinstance(b._register, ClassicalRegister):
                self.clbits.append(b)
            else:
                self.qubits.append(b)

    @property
    def num_qubits(self):
        return len(self.qubits)

    @property
    def num_clbits(self):
        return len(self.clbits)

    def add_register(self, r):
        if isinstance(r, QuantumRegister):
            self.qregs.append(r)
            self.qubits.extend(r._bits)
        else:
            self.cregs.append(r)
            self.clbits.extend(r._bits)

    def append(self, instruction, qargs=None, cargs=None):
        qs = [self.qubits[q] if isinstance(q, int) else q for q in (qargs or [])]
        cs = [self.clbits[c] if isinstance(c, int) else c for c in (cargs or [])]
        self.data.append(CircuitInstruction(instruction, qs, cs))

    def compose(self, other, qubits=None, clbits=None):
        res = QuantumCircuit()
        res.qubits = list(self.qubits)
        res.clbits = list(self.clbits)
        res.qregs = list(self.qregs)
        res.cregs = list(self.cregs)
        res.data = list(self.data)
        res.global_phase = self.global_phase + other.global_phase
        for ins in other.data:
            qs = [res.qubits[other.qubits.index(q)] for q in ins.qubits]
            cs = [(clbits or res.clbits)[other.clbits.index(c)] for c in ins.clbits]
            res.data.append(CircuitInstruction(ins.operation, qs, cs))
        return res

    def to_gate(self, label=None):
        for ins in self.data:
            if ins.operation.kind in ("measure", "reset", "barrier", "if", "instruction"):
                raise QiskitError("not a gate")
        return mkgate("circ", self.num_qubits, [], body=self)

    def to_instruction(self, label=None):
        return mkgate("instruction", self.num_qubits, [], body=self)
