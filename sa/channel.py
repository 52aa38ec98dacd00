"""Meaning of an extracted instruction list with measurements, resets and ancillas.

The list is read as a set of linear maps, one per sequence of measurement outcomes, applied to a chosen
set of input columns; qubits that are not inputs start in |0>.
"""
import numpy as np

from . import oracle as O
from .values import Obj


class Branch:
    def __init__(self, T, bits, dirty=()):
        self.T = T
        self.bits = dict(bits)
        self.dirty = list(dirty)


def _apply(T, U, idx):
    k = len(idx)
    n = T.ndim - 1
    U = U.reshape([2] * (2 * k))
    R = np.tensordot(U, T, axes=(list(range(k, 2 * k)), list(idx)))
    return np.moveaxis(R, list(range(k)), list(idx))


def _project(T, q, b):
    P = np.zeros_like(T)
    sl = [slice(None)] * T.ndim
    sl[q] = b
    P[tuple(sl)] = T[tuple(sl)]
    return P


def norm(T):
    return float(np.sqrt(np.sum(np.abs(T) ** 2)))


def has_classical(op, depth=0):
    a = op.attrs
    if a.get("num_clbits") or a.get("name") in ("measure", "reset"):
        return True
    d = a.get("definition")
    if isinstance(d, Obj) and depth < 6:
        for i in d.attrs.get("data", []):
            if has_classical(i.attrs["op"], depth + 1):
                return True
    return False


def run(data, order, inputs, cols, env, via="definition", clbits=()):
    """order: all qubit objects; inputs: positions of the input qubits in order (first = most significant);
    cols: list of input basis states (ints). Returns branches; each T has shape [2]*n + [len(cols)]."""
    n = len(order)
    if n > 15:
        raise O.Undenotable("too many qubits")
    T = np.zeros([2] * n + [len(cols)], dtype=complex)
    k = len(inputs)
    for c, v in enumerate(cols):
        idx = [0] * n
        for j, q in enumerate(inputs):
            idx[q] = (v >> (k - 1 - j)) & 1
        T[tuple(idx) + (c,)] = 1
    pos = {id(q): i for i, q in enumerate(order)}

    def where(q):
        if id(q) in pos:
            return pos[id(q)]
        if q in order:
            return order.index(q)
        raise O.Undenotable("foreign qubit")
    out = [Branch(T, {id(c): 0 for c in clbits})]
    return _steps(data, lambda q: where(q), lambda c: id(c), out, env, via)


def _steps(data, qmap, cmap, branches, env, via):
    for ins in data:
        if not isinstance(ins, Obj):
            raise O.Undenotable("opaque instruction")
        op = ins.attrs["op"]
        qs = [qmap(q) for q in ins.attrs["qubits"]]
        cs = [cmap(c) for c in ins.attrs.get("clbits", [])]
        branches = _op(op, qs, cs, branches, env, via)
        if len(branches) > 256:
            raise O.Undenotable("too many measurement branches")
    return branches


def _op(op, qs, cs, branches, env, via):
    a = op.attrs
    nm = a.get("name")
    if nm in ("barrier", "qb_alloc"):
        return branches
    if nm == "qb_dealloc":
        for b in branches:
            if norm(_project(b.T, qs[0], 1)) > 1e-5:
                b.dirty.append(qs[0])
        return branches
    if nm in ("measure", "reset"):
        out = []
        for b in branches:
            for v in (0, 1):
                P = _project(b.T, qs[0], v)
                if norm(P) < 1e-6:
                    continue
                nb = Branch(P, b.bits, b.dirty)
                if nm == "measure":
                    nb.bits[cs[0]] = v
                elif v == 1:
                    nb.T = _apply(nb.T, O.X, [qs[0]])
                out.append(nb)
        return out
    if "base_op" in a and "num_control" in a:
        m = a["num_control"]
        st = a["ctrl_state"]
        out = []
        for b in branches:
            if any(c not in b.bits for c in cs[:m]):
                raise O.Undenotable("condition on an unset bit")
            if all(str(b.bits[c]) == st[j] for j, c in enumerate(cs[:m])):
                out += _op(a["base_op"], qs, cs[m:], [b], env, via)
            else:
                out.append(b)
        return out
    d = a.get("definition")
    if isinstance(d, Obj) and has_classical(op):
        q = {id(x): qs[i] for i, x in enumerate(d.attrs["qubits"])}
        c = {id(x): cs[i] for i, x in enumerate(d.attrs["clbits"])}
        return _steps(d.attrs["data"], lambda x: q[id(x)], lambda x: c[id(x)], branches, env, via)
    if isinstance(d, Obj) and len(qs) > 5:
        q = {id(x): qs[i] for i, x in enumerate(d.attrs["qubits"])}
        return _steps(d.attrs["data"], lambda x: q[id(x)], lambda x: id(x), branches, env, via)
    U = O.op_matrix(op, env, via)
    if U.shape[0] != 2 ** len(qs):
        raise O.Undenotable("operation on a different number of qubits")
    for b in branches:
        b.T = _apply(b.T, U, qs)
    return branches


def columns(b, inputs, n):
    """Matrix over the input qubits (other qubits in |0>), and the weight found outside of that subspace."""
    T = b.T
    anc = [i for i in range(n) if i not in inputs]
    sl = [slice(None)] * T.ndim
    for i in anc:
        sl[i] = 0
    S = T[tuple(sl)]
    rest = [i for i in range(n) if i not in anc]
    S = np.transpose(S, [rest.index(i) for i in inputs] + [len(rest)])
    M = S.reshape(2 ** len(inputs), -1)
    return M, norm(T) ** 2 - norm(M) ** 2


class Lazy:
    """The images of chosen basis states, kept as lists of basis states with amplitudes (qubits are added in |0>
    when first used and dropped when returned)."""

    def __init__(self, inputs, cols, env, via="definition", bound=200000):
        self.env = env
        self.via = via
        self.bound = bound
        self.dirty = []
        self.inputs = list(inputs)
        self.ncols = len(cols)
        self.pos = {}
        self.keep = {}
        self.free = list(range(47, -1, -1))
        k = len(self.inputs)
        for q in self.inputs:
            self.axis(q)
        keys = []
        for c, v in enumerate(cols):
            key = c << 48
            for j, q in enumerate(self.inputs):
                if (v >> (k - 1 - j)) & 1:
                    key |= 1 << self.pos[id(q)]
            keys.append(key)
        self.keys = np.array(keys, dtype=np.int64)
        self.amps = np.ones(len(cols), dtype=complex)

    def axis(self, q):
        if id(q) not in self.pos:
            for i, o in self.keep.items():
                if o == q or o.attrs.get("identifier") == q.attrs.get("identifier"):
                    return self.pos[i]
            if not self.free:
                self.collect()
            if not self.free:
                raise O.Undenotable("too many qubits")
            self.pos[id(q)] = self.free.pop()
            self.keep[id(q)] = q
        return self.pos[id(q)]

    def collect(self):
        """Give up the positions of qubits that are in |0> for every input."""
        used = int(np.bitwise_or.reduce(self.keys)) if len(self.keys) else 0
        fixed = {id(x) for x in self.inputs}
        for i, b in list(self.pos.items()):
            if i not in fixed and not used >> b & 1:
                del self.pos[i], self.keep[i]
                self.free.append(b)

    def drop(self, q):
        if id(q) not in self.pos or any(q is x for x in self.inputs):
            return
        b = self.pos[id(q)]
        if np.sum(np.abs(self.amps[(self.keys >> b) & 1 == 1]) ** 2) > 1e-8:
            self.dirty.append(q)
            return
        keep = (self.keys >> b) & 1 == 0
        self.keys, self.amps = self.keys[keep], self.amps[keep]
        del self.pos[id(q)], self.keep[id(q)]
        self.free.append(b)

    def steps(self, data, qmap):
        for ins in data:
            if not isinstance(ins, Obj):
                raise O.Undenotable("opaque instruction")
            self.op(ins.attrs["op"], [qmap(q) for q in ins.attrs["qubits"]])

    def op(self, op, qs):
        a = op.attrs
        nm = a.get("name")
        if nm in ("barrier", "qb_alloc"):
            return
        if nm == "qb_dealloc":
            self.drop(qs[0])
            return
        if nm in ("measure", "reset") or "base_op" in a and "num_control" in a:
            raise O.Undenotable("measurement")
        d = a.get("definition")
        if isinstance(d, Obj) and (len(qs) > 4 or has_classical(op)):
            q = {id(x): qs[i] for i, x in enumerate(d.attrs["qubits"])}
            named = {x.attrs.get("identifier"): qs[i] for i, x in enumerate(d.attrs["qubits"])}

            def at(x):
                if id(x) in q:
                    return q[id(x)]
                if x.attrs.get("identifier") in named:
                    return named[x.attrs["identifier"]]
                raise O.Undenotable("foreign qubit")
            self.steps(d.attrs["data"], at)
            return
        U = O.op_matrix(op, self.env, self.via)
        if U.shape[0] != 2 ** len(qs):
            raise O.Undenotable("operation on a different number of qubits")
        self.apply(U, [self.axis(q) for q in qs])

    def apply(self, U, bits):
        k = len(bits)
        local = np.zeros(len(self.keys), dtype=np.int64)
        mask = 0
        for j, b in enumerate(bits):
            local |= ((self.keys >> b) & 1) << (k - 1 - j)
            mask |= 1 << b
        spread = np.array([sum(((r >> (k - 1 - j)) & 1) << b for j, b in enumerate(bits)) for r in range(2 ** k)], dtype=np.int64)
        rest = self.keys & ~np.int64(mask)
        nz = np.abs(U) > 1e-12
        if (nz.sum(axis=0) == 1).all():
            to = np.argmax(nz, axis=0)
            self.keys = rest | spread[to[local]]
            self.amps = self.amps * U[to, np.arange(2 ** k)][local]
            return
        keys, amps = [], []
        for r in range(2 ** k):
            f = U[r, :][local]
            hit = np.abs(f) > 1e-12
            keys.append(rest[hit] | spread[r])
            amps.append(self.amps[hit] * f[hit])
        keys, amps = np.concatenate(keys), np.concatenate(amps)
        keys, inv = np.unique(keys, return_inverse=True)
        amps = np.bincount(inv, weights=amps.real, minlength=len(keys)) + 1j * np.bincount(inv, weights=amps.imag, minlength=len(keys))
        keep = np.abs(amps) > 1e-9
        self.keys, self.amps = keys[keep], amps[keep]
        if len(self.keys) > self.bound:
            raise O.Undenotable("too many basis states")


def basis_map(data, inputs, outputs, cols, env):
    """For every column the basis state of the output qubits (first = most significant) and its amplitude;
    a text instead when the columns are not mapped to basis states or another qubit is not in |0>."""
    s = Lazy(inputs, cols, env)
    s.steps(data, lambda q: q)
    if s.dirty:
        return "returns an ancilla in a state other than zero"
    out = [s.axis(q) for q in outputs]
    used = 0
    for b in out:
        used |= 1 << b
    big = np.abs(s.amps) > 1e-4
    if ((s.keys[big] & ((1 << 48) - 1)) & ~np.int64(used)).any():
        return "leaves a qubit behind that is not part of the result"
    res = [None] * len(cols)
    for key, a in zip(s.keys[big].tolist(), s.amps[big].tolist()):
        c = key >> 48
        if res[c] is not None or abs(abs(a) - 1) > 1e-4:
            return "maps a number to a superposition"
        v = 0
        for b in out:
            v = v << 1 | (key >> b & 1)
        res[c] = (v, a)
    if None in res:
        return "maps a number to a superposition"
    return res


def matrix(data, inputs, outputs, cols, env):
    """The columns over the output qubits (first = most significant), or a text when another qubit is not in |0>."""
    s = Lazy(inputs, cols, env)
    s.steps(data, lambda q: q)
    if s.dirty:
        return "returns an ancilla in a state other than zero"
    out = [s.axis(q) for q in outputs]
    if len(set(out)) != len(out):
        return "uses a qubit twice in the result"
    used = 0
    for b in out:
        used |= 1 << b
    big = np.abs(s.amps) > 1e-7
    keys, amps = s.keys[big], s.amps[big]
    rest = (keys & ((1 << 48) - 1)) & ~np.int64(used)
    if (np.abs(amps[rest != 0]) > 1e-4).any():
        return "leaves a qubit behind that is not part of the result"
    M = np.zeros((2 ** len(out), len(cols)), dtype=complex)
    v = np.zeros(len(keys), dtype=np.int64)
    for b in out:
        v = v << 1 | (keys >> b & 1)
    M[v, keys >> 48] = amps
    return M
