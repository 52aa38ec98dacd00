"""Textbook gate semantics and denotation of extracted gate sequences.

This is the independent specification: matrices written down here, never taken
from the analysed tree.  Qubit 0 of an operation is the most significant bit.
"""
import cmath
import itertools
import math

import numpy as np

from .values import Obj, Term, Sym, Unk, App, evalterm, free_syms, is_num, _FOLD

pi = math.pi
I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)


class Undenotable(Exception):
    """The extracted object cannot be given a matrix (analysis imprecision)."""


def rot(P, t):
    return math.cos(t / 2) * np.eye(P.shape[0]) - 1j * math.sin(t / 2) * P


def u3(t, p, l):
    return np.array([[math.cos(t / 2), -cmath.exp(1j * l) * math.sin(t / 2)],
                     [cmath.exp(1j * p) * math.sin(t / 2), cmath.exp(1j * (p + l)) * math.cos(t / 2)]])


def phase(p):
    return np.diag([1, cmath.exp(1j * p)])


def ctrl(U, n=1, state=None):
    """Controlled U; state is a bit string, first character = first control."""
    if state is None:
        state = "1" * n
    d = U.shape[0]
    m = np.eye(d * 2 ** n, dtype=complex)
    k = int(state, 2) if n else 0
    m[k * d:(k + 1) * d, k * d:(k + 1) * d] = U
    return m


SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)
XX = np.kron(X, X)
YY = np.kron(Y, Y)
ZZ = np.kron(Z, Z)


def xxyy(phi, beta):
    c, s = math.cos(phi / 2), math.sin(phi / 2)
    return np.array([[1, 0, 0, 0],
                     [0, c, -1j * s * cmath.exp(1j * beta), 0],
                     [0, -1j * s * cmath.exp(-1j * beta), c, 0],
                     [0, 0, 0, 1]])


# name -> (number of qubits, number of parameters, matrix)
GATES = {
    "x": (1, 0, lambda: X), "y": (1, 0, lambda: Y), "z": (1, 0, lambda: Z), "h": (1, 0, lambda: H),
    "s": (1, 0, lambda: phase(pi / 2)), "s_dg": (1, 0, lambda: phase(-pi / 2)),
    "t": (1, 0, lambda: phase(pi / 4)), "t_dg": (1, 0, lambda: phase(-pi / 4)),
    "sx": (1, 0, lambda: rot(X, pi / 2)), "sx_dg": (1, 0, lambda: rot(X, -pi / 2)),
    "id": (1, 0, lambda: I2),
    "rx": (1, 1, lambda a: rot(X, a)), "ry": (1, 1, lambda a: rot(Y, a)), "rz": (1, 1, lambda a: rot(Z, a)),
    "p": (1, 1, lambda a: phase(a)), "u1": (1, 1, lambda a: rot(Z, a)),
    "gphase": (1, 1, lambda a: cmath.exp(1j * a) * I2),
    "u3": (1, 3, u3), "r": (1, 2, lambda a, b: u3(-a, b, -b)),
    "cx": (2, 0, lambda: ctrl(X)), "cy": (2, 0, lambda: ctrl(Y)), "cz": (2, 0, lambda: ctrl(Z)),
    "cp": (2, 1, lambda a: ctrl(phase(a))), "swap": (2, 0, lambda: SWAP),
    "rxx": (2, 1, lambda a: rot(XX, a)), "rzz": (2, 1, lambda a: rot(ZZ, a)),
    "xxyy": (2, 2, xxyy),
}

NONUNITARY = {"measure", "reset", "barrier", "qb_alloc", "qb_dealloc", "disentangle"}


def embed(M, qs, n):
    """Lift matrix M acting on the qubits qs (qs[0] most significant) to n qubits."""
    k = len(qs)
    rest = [q for q in range(n) if q not in qs]
    perm = list(qs) + rest
    full = np.kron(M, np.eye(2 ** (n - k))) if n > k else M
    T = full.reshape([2] * (2 * n))
    inv = [perm.index(i) for i in range(n)]
    T = T.transpose(inv + [n + i for i in inv])
    return T.reshape(2 ** n, 2 ** n)


def num(x, env):
    try:
        v = evalterm(x, env)
    except (KeyError, TypeError, ZeroDivisionError, ValueError, OverflowError) as e:
        raise Undenotable("parameter %r" % (x,))
    if isinstance(v, (complex, np.complexfloating)):
        if abs(v.imag) < 1e-12:
            return float(v.real)
        raise Undenotable("complex parameter %r" % (x,))
    return float(v)


def circuit_matrix(qc, env, via="definition"):
    qubits = qc.attrs.get("qubits")
    data = qc.attrs.get("data")
    if not isinstance(qubits, list) or not isinstance(data, list):
        raise Undenotable("circuit without qubit list")
    n = len(qubits)
    if n > 9:
        raise Undenotable("circuit too large")
    ids = {id(q): i for i, q in enumerate(qubits)}
    M = np.eye(2 ** n, dtype=complex)
    for ins in data:
        if not isinstance(ins, Obj):
            raise Undenotable("opaque instruction")
        op = ins.attrs.get("op")
        qs = ins.attrs.get("qubits")
        if not isinstance(op, Obj) or not isinstance(qs, list):
            raise Undenotable("opaque instruction")
        nm = op.attrs.get("name")
        if nm in ("qb_alloc", "qb_dealloc", "barrier"):
            continue
        if nm in ("measure", "reset"):
            raise Undenotable("non unitary " + nm)
        try:
            idx = [ids[id(q)] for q in qs]
        except KeyError:
            try:
                idx = [qubits.index(q) for q in qs]
            except ValueError:
                raise Undenotable("foreign qubit")
        M = embed(op_matrix(op, env, via), idx, n) @ M
    return M


def op_matrix(op, env, via="definition"):
    """Denotation of an extracted operation object from its stored fields."""
    a = op.attrs
    nm = a.get("name")
    if isinstance(nm, str) and nm in ("measure", "reset"):
        raise Undenotable("non unitary " + nm)
    if "theta" in a and "phi" in a and "lam" in a:
        m = u3(num(a["theta"], env), num(a["phi"], env), num(a["lam"], env))
        return m * cmath.exp(1j * num(a.get("global_phase", 0), env))
    base = a.get("base_operation")
    if isinstance(base, Obj) and "ctrl_state" in a and isinstance(a.get("controls"), list) and via == "denotation":
        return ctrl(op_matrix(base, env, via), len(a["controls"]), a["ctrl_state"])
    d = a.get("definition")
    if isinstance(d, Obj):
        return circuit_matrix(d, env, via)
    u = a.get("unitary")
    if isinstance(u, np.ndarray):
        return np.array([complex(evalterm(x, env)) for x in u.ravel()]).reshape(u.shape)
    if isinstance(base, Obj) and "ctrl_state" in a and isinstance(a.get("controls"), list):
        return ctrl(op_matrix(base, env, via), len(a["controls"]), a["ctrl_state"])
    if isinstance(nm, str) and nm in GATES:
        nq, np_, f = GATES[nm]
        ps = a.get("params", [])
        return f(*[num(x, env) for x in ps[:np_]])
    raise Undenotable("no fields to denote operation %r" % (nm,))


def equal(A, B, upto_phase=False, tol=1e-5):
    if A.shape != B.shape:
        return False
    if not upto_phase:
        return bool(np.max(np.abs(A - B)) < tol)
    k = np.unravel_index(np.argmax(np.abs(B)), B.shape)
    if abs(B[k]) < 1e-9:
        return bool(np.max(np.abs(A)) < tol)
    if abs(A[k]) < 1e-9:
        return False
    ph = A[k] / B[k]
    if abs(abs(ph) - 1) > 1e-4:
        return False
    return bool(np.max(np.abs(A - ph * B)) < tol)


# ---------------------------------------------------------------- sampling
GENERIC = [0.37, -1.13, 2.41, 0.92, -2.77, 1.61, 3.7, -4.9]
SPECIAL = [0.0, pi, pi / 2, -pi / 2, 2 * pi, -pi, pi / 4, 3 * pi, 4 * pi, 1e-9, -3 * pi / 2, 3 * pi / 2]


def valuations(names, limit=400):
    """Candidate parameter assignments: generic points first, then special ones."""
    names = list(names)
    out = []
    if not names:
        return [{}]
    for s in range(len(GENERIC)):
        out.append({n: GENERIC[(s + 3 * i) % len(GENERIC)] for i, n in enumerate(names)})
    if len(names) == 1:
        out += [{names[0]: v} for v in SPECIAL]
    else:
        for i, n in enumerate(names):
            for v in SPECIAL:
                d = {m: GENERIC[(2 * j + 1) % len(GENERIC)] for j, m in enumerate(names)}
                d[n] = v
                out.append(d)
        for vs in itertools.islice(itertools.product(SPECIAL[:6], repeat=len(names)), limit):
            out.append(dict(zip(names, vs)))
    return out[:limit]


def cond_holds(conds, env):
    """True/False when every/any evaluable condition agrees/disagrees with env."""
    for t, v in conds:
        r = eval_bool(t, env)
        if r is None:
            continue
        if r != v:
            return False
    return True


def eval_bool(t, env):
    try:
        if isinstance(t, App):
            if t.fn == "isclose":
                a, b = evalterm(t.args[0], env), evalterm(t.args[1], env)
                return bool(np.isclose(a, b))
            if t.fn == "not":
                r = eval_bool(t.args[0], env)
                return None if r is None else (not r)
            if t.fn == "bitand" or t.fn == "bitor":
                a, b = eval_bool(t.args[0], env), eval_bool(t.args[1], env)
                if a is None or b is None:
                    return None
                return (a and b) if t.fn == "bitand" else (a or b)
            if t.fn in _FOLD:
                return bool(evalterm(t, env))
        return None
    except Exception:
        return None
