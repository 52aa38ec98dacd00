"""Small circuits described as data, built through the analysed constructors, and compared as quantum instruments."""
import numpy as np

from sa import oracle as O, channel as CH
from checks.common import construct, meth, new_circuit

FAC = {"x": "XGate", "y": "YGate", "z": "ZGate", "h": "HGate", "s": "SGate", "t": "TGate", "sx": "SXGate", "rx": "RXGate", "ry": "RYGate",
       "rz": "RZGate", "p": "PGate", "gphase": "GPhaseGate", "u3": "u3Gate", "cx": "CXGate", "cy": "CYGate", "cz": "CZGate", "cp": "CPGate",
       "swap": "SwapGate", "rxx": "RXXGate", "rzz": "RZZGate", "xxyy": "XXYYGate", "id": "IDGate", "measure": "Measurement", "reset": "Reset",
       "alloc": "QubitAlloc", "dealloc": "QubitDealloc", "barrier": "Barrier"}


def op(w, spec, nq=1):
    """spec: (name, *params) | ("ctrl", state, spec[, method]) | ("if", state, spec) | ("def", name, nq, nc, steps) | ("inv", spec)"""
    k = spec[0]
    if k == "ctrl":
        b = op(w, spec[2])
        return meth(w, b, "control", len(spec[1]), ctrl_state=spec[1], **({"method": spec[3]} if len(spec) > 3 else {}))
    if k == "if":
        return meth(w, op(w, spec[2]), "c_if", len(spec[1]), spec[1])
    if k == "inv":
        return meth(w, op(w, spec[1]), "inverse")
    if k == "def":
        return meth(w, circuit(w, spec[2], spec[3], spec[4]), "to_gate" if spec[3] == 0 else "to_op", spec[1])
    if k == "barrier":
        return construct(w, "Barrier", [nq], mod="qrisp.circuit")
    if k not in FAC:
        raise KeyError(k)
    return construct(w, FAC[k], spec[1:], mod="qrisp.circuit")


def circuit(w, nq, nc, steps):
    """steps: (spec or name, qubits[, clbits])"""
    qc = new_circuit(w, nq, nc)
    for s in steps:
        sp = s[0] if isinstance(s[0], tuple) else (s[0],)
        qs = [w.getattr(qc, "qubits")[i] for i in s[1]]
        cs = [w.getattr(qc, "clbits")[i] for i in (s[2] if len(s) > 2 else ())]
        meth(w, qc, "append", op(w, sp, len(qs)), qs, cs)
    return qc


def text(steps):
    def sp(x):
        if not isinstance(x, tuple):
            return str(x)
        if x[0] == "ctrl":
            return "c%s[%s]" % (sp(x[2]), x[1])
        if x[0] == "if":
            return "if(%s)%s" % (x[1], sp(x[2]))
        if x[0] == "inv":
            return sp(x[1]) + "^-1"
        if x[0] == "def":
            return "{%s}" % text(x[4])
        return x[0] + ("(%s)" % ",".join(str(p) for p in x[1:]) if len(x) > 1 else "")
    return "; ".join("%s %s%s" % (sp(s[0]), ",".join(map(str, s[1])), "->" + ",".join(map(str, s[2])) if len(s) > 2 and s[2] else "") for s in steps)


def instrument(data, order, clbits, env, zero=False, inputs=None):
    """Choi matrices of the completely positive maps of a circuit, keyed by the values of the classical bits."""
    n = len(order)
    ins = list(range(n)) if inputs is None else inputs
    if zero:
        ins = []
    cols = list(range(2 ** len(ins)))
    bs = CH.run(data, order, ins, cols, env, clbits=clbits)
    res = {}
    for b in bs:
        key = tuple(b.bits.get(id(c), 0) for c in clbits)
        v = b.T.reshape(-1)
        res[key] = res.get(key, 0) + np.outer(v, v.conj())
    return {k: v for k, v in res.items() if np.trace(v).real > 1e-8}


def same_instrument(a, b, tol=1e-4):
    if set(a) != set(b):
        return False
    return all(a[k].shape == b[k].shape and np.max(np.abs(a[k] - b[k])) < tol for k in a)


def unitary(data, order, env):
    n = len(order)
    bs = CH.run(data, order, list(range(n)), list(range(2 ** n)), env)
    if len(bs) != 1:
        raise O.Undenotable("not unitary")
    return bs[0].T.reshape(2 ** n, 2 ** n)
