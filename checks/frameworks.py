"""Matrices of the gates of the modelled target frameworks (qubit 0 most significant)."""
import cmath
import math

import numpy as np

from sa import oracle as O
from sa.interp import Obj, Term

pi = math.pi
PH = lambda a: cmath.exp(1j * a)
RYY = lambda t: O.rot(O.YY, t)


def prx(t, p):
    return O.u3(t, p - pi / 2, pi / 2 - p)


QISKIT = {
    "x": lambda: O.X, "y": lambda: O.Y, "z": lambda: O.Z, "h": lambda: O.H, "s": lambda: O.phase(pi / 2),
    "sdg": lambda: O.phase(-pi / 2), "t": lambda: O.phase(pi / 4), "tdg": lambda: O.phase(-pi / 4),
    "sx": lambda: PH(pi / 4) * O.rot(O.X, pi / 2), "sxdg": lambda: PH(-pi / 4) * O.rot(O.X, -pi / 2),
    "id": lambda: O.I2, "rx": lambda a: O.rot(O.X, a), "ry": lambda a: O.rot(O.Y, a), "rz": lambda a: O.rot(O.Z, a),
    "p": O.phase, "u1": O.phase, "u3": O.u3, "u": O.u3, "r": prx, "swap": lambda: O.SWAP,
    "rxx": lambda a: O.rot(O.XX, a), "ryy": RYY, "rzz": lambda a: O.rot(O.ZZ, a), "xx_plus_yy": O.xxyy,
}
H = lambda f: (lambda *a: f(*[x * pi for x in a]))
TKET = {
    "H": lambda: O.H, "X": lambda: O.X, "Y": lambda: O.Y, "Z": lambda: O.Z, "S": lambda: O.phase(pi / 2),
    "Sdg": lambda: O.phase(-pi / 2), "T": lambda: O.phase(pi / 4), "Tdg": lambda: O.phase(-pi / 4),
    "SX": QISKIT["sx"], "SXdg": QISKIT["sxdg"], "V": lambda: O.rot(O.X, pi / 2), "Vdg": lambda: O.rot(O.X, -pi / 2),
    "Rx": H(lambda a: O.rot(O.X, a)), "Ry": H(lambda a: O.rot(O.Y, a)), "Rz": H(lambda a: O.rot(O.Z, a)),
    "U1": H(O.phase), "U3": H(O.u3), "CX": lambda: O.ctrl(O.X), "CY": lambda: O.ctrl(O.Y), "CZ": lambda: O.ctrl(O.Z),
    "CH": lambda: O.ctrl(O.H), "CRx": H(lambda a: O.ctrl(O.rot(O.X, a))), "CRy": H(lambda a: O.ctrl(O.rot(O.Y, a))),
    "CRz": H(lambda a: O.ctrl(O.rot(O.Z, a))), "CU1": H(lambda a: O.ctrl(O.phase(a))), "SWAP": lambda: O.SWAP,
    "XXPhase": H(lambda a: O.rot(O.XX, a)), "YYPhase": H(RYY), "ZZPhase": H(lambda a: O.rot(O.ZZ, a)),
    "noop": lambda: O.I2, "CCX": lambda: O.ctrl(O.X, 2), "PhasedX": H(prx), "CSWAP": lambda: O.ctrl(O.SWAP),
}
PENNY = {
    "X": lambda: O.X, "Y": lambda: O.Y, "Z": lambda: O.Z, "Hadamard": lambda: O.H, "RX": lambda a: O.rot(O.X, a),
    "RY": lambda a: O.rot(O.Y, a), "RZ": lambda a: O.rot(O.Z, a), "PhaseShift": O.phase, "U3": O.u3,
    "Rot": lambda p, t, o: O.rot(O.Z, o) @ O.rot(O.Y, t) @ O.rot(O.Z, p), "IsingXX": lambda a: O.rot(O.XX, a),
    "IsingYY": RYY, "IsingZZ": lambda a: O.rot(O.ZZ, a), "SWAP": lambda: O.SWAP, "S": lambda: O.phase(pi / 2),
    "T": lambda: O.phase(pi / 4), "SX": QISKIT["sx"], "Identity": lambda: O.I2, "CNOT": lambda: O.ctrl(O.X),
    "CY": lambda: O.ctrl(O.Y), "CZ": lambda: O.ctrl(O.Z),
}
STIM = {
    "H": lambda: O.H, "X": lambda: O.X, "Y": lambda: O.Y, "Z": lambda: O.Z, "S": lambda: O.phase(pi / 2),
    "S_DAG": lambda: O.phase(-pi / 2), "SQRT_X": QISKIT["sx"], "SQRT_X_DAG": QISKIT["sxdg"],
    "SQRT_Y": lambda: O.rot(O.Y, pi / 2), "SQRT_Y_DAG": lambda: O.rot(O.Y, -pi / 2), "I": lambda: O.I2,
    "CX": lambda: O.ctrl(O.X), "CY": lambda: O.ctrl(O.Y), "CZ": lambda: O.ctrl(O.Z), "SWAP": lambda: O.SWAP,
}
CIRQ_BASE = {"xpow": O.X, "ypow": O.Y, "zpow": O.Z, "hpow": O.H, "swappow": O.SWAP}


def nums(ps, env):
    return [O.num(p, env) for p in ps]


def table(T, key, params, env):
    if key not in T:
        raise O.Undenotable("unmodelled target gate " + str(key))
    try:
        return T[key](*nums(params, env))
    except TypeError:
        raise BadArity("gate %s given %d parameters" % (key, len(params)))


class BadArity(Exception):
    pass


# ---------------------------------------------------------------- qiskit
def qiskit_gate(g, env):
    k = g.attrs["kind"]
    if k == "ctrl":
        return O.ctrl(qiskit_gate(g.attrs["base"], env), len(g.attrs["bits"]), g.attrs["bits"])
    if k == "adj":
        return qiskit_gate(g.attrs["base"], env).conj().T
    if k in ("circ", "instruction"):
        return qiskit_circuit(g.attrs["body"], env)
    return table(QISKIT, k, g.attrs["params"], env)


def qiskit_circuit(qc, env):
    qs = qc.attrs["qubits"]
    M = np.eye(2 ** len(qs), dtype=complex) * PH(O.num(qc.attrs["global_phase"], env))
    for ins in qc.attrs["data"]:
        op = ins.attrs["operation"]
        if op.attrs["kind"] == "barrier":
            continue
        if op.attrs["kind"] in ("measure", "reset", "if"):
            raise O.Undenotable("non unitary")
        U = qiskit_gate(op, env)
        idx = [qs.index(q) for q in ins.attrs["qubits"]]
        if U.shape[0] != 2 ** len(idx):
            raise BadArity("gate on %d qubits applied to %d" % (np.log2(U.shape[0]), len(idx)))
        M = O.embed(U, idx, len(qs)) @ M
    return M


# ---------------------------------------------------------------- pytket
def tket_circuit(qc, env):
    ws = qc.attrs["wires"]
    M = np.eye(2 ** len(ws), dtype=complex)
    for s in qc.attrs["steps"]:
        g = s.attrs["gate"]
        k = g.attrs["kind"]
        args = s.attrs["qubits"]
        if k == "circ":
            U = tket_circuit(g.attrs["body"], env)
        elif k.startswith("tk:"):
            if k[3:] in ("Measure", "Reset"):
                raise O.Undenotable("non unitary")
            U = table(TKET, k[3:], g.attrs["params"], env)
        else:
            raise O.Undenotable(k)
        idx = [ws.index(a) for a in args]
        if U.shape[0] != 2 ** len(idx):
            raise BadArity("gate on %d qubits applied to %d" % (np.log2(U.shape[0]), len(idx)))
        M = O.embed(U, idx, len(ws)) @ M
    return M


# ---------------------------------------------------------------- pennylane
def pl_op(op, env):
    k = op.attrs["kind"]
    if k == "ctrl":
        return O.ctrl(pl_op(op.attrs["base"], env), len(op.attrs["bits"]), op.attrs["bits"])
    if k == "adj":
        return pl_op(op.attrs["base"], env).conj().T
    if not k.startswith("pl:"):
        raise O.Undenotable(k)
    if k == "pl:GlobalPhase":
        return PH(-O.num(op.attrs["params"][0], env)) * np.eye(2 ** op.attrs["nq"])
    return table(PENNY, k[3:], op.attrs["params"], env)


def pl_tape(tape, wires, env):
    n = len(wires)
    M = np.eye(2 ** n, dtype=complex)
    for op in tape:
        U = pl_op(op, env)
        idx = [wires.index(x) for x in op.attrs["wires"]]
        if U.shape[0] != 2 ** len(idx):
            raise BadArity("gate applied to %d wires" % len(idx))
        M = O.embed(U, idx, n) @ M
    return M


# ---------------------------------------------------------------- stim
def stim_circuit(qc, n, env):
    M = np.eye(2 ** n, dtype=complex)
    for s in qc.attrs["steps"]:
        k = s.attrs["gate"].attrs["kind"][5:]
        if k == "TICK":
            continue
        U = table(STIM, k, [], env)
        idx = s.attrs["qubits"]
        if any(isinstance(i, Obj) for i in idx):
            raise O.Undenotable("conditioned")
        m = int(np.log2(U.shape[0]))
        for i in range(0, len(idx), m):
            M = O.embed(U, idx[i:i + m], n) @ M
    return M


# ---------------------------------------------------------------- cirq
def cirq_gate(g, env):
    def at(n):
        if n in g.attrs:
            return g.attrs[n]
        v = g.cls.lookup(n)[0]
        return v
    k = at("kind")
    if k == "ctrl":
        bits = "".join(str(v[0]) for v in at("control_values"))
        return O.ctrl(cirq_gate(at("sub_gate"), env), len(bits), bits)
    if k == "ident":
        return O.I2
    if k == "gphase":
        from sa.values import evalterm
        return np.array([[complex(evalterm(at("coefficient"), env))]])
    if k in ("cxpow", "czpow") or k in CIRQ_BASE:
        t = O.num(at("exponent"), env)
        sh = O.num(at("shift"), env)
        P = CIRQ_BASE[{"cxpow": "xpow", "czpow": "zpow"}.get(k, k)]
        d = P.shape[0]
        U = PH(pi * sh * t) * ((np.eye(d) + P) / 2 + PH(pi * t) * (np.eye(d) - P) / 2)
        return O.ctrl(U) if k in ("cxpow", "czpow") else U
    raise O.Undenotable("cirq gate " + str(k))


def cirq_circuit(qc, order, env):
    n = len(order)
    M = np.eye(2 ** n, dtype=complex)
    for op in qc.attrs["ops"]:
        g = op.attrs["gate"]
        idx = [order.index(q.attrs["i"]) for q in op.attrs["qubits"]]
        k = g.attrs.get("kind") or g.cls.lookup("kind")[0]
        if k == "gphase":
            from sa.values import evalterm
            M = complex(evalterm(g.attrs["coefficient"], env)) * M
            continue
        U = cirq_gate(g, env)
        if U.shape[0] != 2 ** len(idx):
            raise BadArity("gate applied to %d qubits" % len(idx))
        M = O.embed(U, idx, n) @ M
    return M
