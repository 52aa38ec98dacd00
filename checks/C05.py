"""Conversions to and from other frameworks keep the meaning of a circuit."""
import json
import os

import numpy as np

from .common import *
from .C02 import composite, snapshot, circ_snap
from . import frameworks as F

SHARED = True

CONV = "qrisp.interface.converter."
MUST = {"x", "y", "z", "h", "s", "t", "rx", "ry", "rz", "p", "cx", "cz", "swap", "s_dg", "t_dg"}


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refused.json")) as _f:
    # what the target cannot express, or the converter never claimed to support
    REFUSABLE = set(json.load(_f))


def refused(ctx, rid, key, where, exc):
    if "%s: %s" % (rid, key) in REFUSABLE:
        ctx.ok(rid, key + " refused")
    else:
        ctx.violate(rid, key, where, "conversion fails with %r" % (exc,))


def sources(ctx):
    """(label, number of parameters, builder(w, syms), needs support)"""
    out = []
    for fac, nm in FACTORIES.items():
        out.append((nm, O.GATES[nm][1], (lambda f: lambda w, s: gate(w, f, *s))(fac), nm))
    for fac in ("SGate", "TGate"):
        out.append((FACTORIES[fac] + "_dg", 0, (lambda f: lambda w, s: meth(w, gate(w, f), "inverse"))(fac), FACTORIES[fac] + "_dg"))
    out.append(("prx", 2, lambda w, s: gate(w, "PRXGate", *s), None))
    ctl = ["XGate", "YGate", "ZGate", "HGate", "PGate", "RXGate", "RYGate", "RZGate", "SGate", "TGate", "SXGate", "u3Gate",
           "SwapGate", "GPhaseGate", "U1Gate", "RGate", "RXXGate", "RZZGate", "IDGate", "SXDGGate"]
    for fac in ctl:
        for st in ("1", "0", "11", "01", "10"):
            if len(st) == 2 and fac not in ("XGate", "ZGate", "PGate", "RYGate", "HGate", "YGate"):
                continue
            out.append(("%s.control(%s)" % (fac, st), O.GATES[FACTORIES[fac]][1],
                        (lambda f, st: lambda w, s: meth(w, gate(w, f, *s), "control", len(st), ctrl_state=st))(fac, st), None))
    out.append(("custom", 2, lambda w, s: composite(w, s), None))
    out.append(("custom.control(0)", 2, lambda w, s: meth(w, composite(w, s), "control", 1, ctrl_state="0"), None))
    out.append(("custom of 0-controlled", 1, nested0, None))
    out.append(("custom named ryy", 1, ryy, None))
    out.append(("inverse of custom", 2, lambda w, s: meth(w, composite(w, s), "inverse"), None))
    out.append(("custom of custom", 2, nested, None))
    out.append(("inverse of custom of 0-controlled", 1, lambda w, s: meth(w, nested0(w, s), "inverse"), None))
    for fac in ("PGate", "RYGate", "SGate", "u3Gate"):
        out.append(("inverse of %s.control(0)" % fac, O.GATES[FACTORIES[fac]][1],
                    (lambda f: lambda w, s: meth(w, meth(w, gate(w, f, *s), "control", 1, ctrl_state="0"), "inverse"))(fac), None))
    out.append(("phases.control(1)", 1, lambda w, s: meth(w, phases(w, s), "control", 1), None))
    out.append(("phases.control(01)", 1, lambda w, s: meth(w, phases(w, s), "control", 2, ctrl_state="01"), None))
    return out


def phases(w, s):
    """A custom gate of gates whose global phase differs between frameworks."""
    qc = new_circuit(w, 1)
    q = list(w.getattr(qc, "qubits"))
    meth(w, qc, "sx", q[0])
    meth(w, qc, "u1", s[0], q[0])
    meth(w, qc, "sx_dg", q[0])
    meth(w, qc, "sx", q[0])
    meth(w, qc, "rz", s[0], q[0])
    return meth(w, meth(w, qc, "to_gate", "phases"), "copy")


def ryy(w, s):
    """A user-made gate whose name several frameworks know."""
    qc = new_circuit(w, 2)
    q = list(w.getattr(qc, "qubits"))
    for i in (0, 1):
        meth(w, qc, "rx", np.pi / 2, q[i])
    meth(w, qc, "rzz", s[0], q[0], q[1])
    for i in (0, 1):
        meth(w, qc, "rx", -np.pi / 2, q[i])
    op = meth(w, qc, "to_gate", "ryy")
    op.attrs["params"] = [s[0]]
    return op


def nested(w, s):
    qc = new_circuit(w, 3)
    q = list(w.getattr(qc, "qubits"))
    meth(w, qc, "h", q[2])
    meth(w, qc, "append", composite(w, s), [q[2], q[0]])
    meth(w, qc, "append", meth(w, composite(w, s), "inverse"), [q[1], q[2]])
    return meth(w, qc, "to_gate", "outer")


def nested0(w, s):
    qc = new_circuit(w, 2)
    q = list(w.getattr(qc, "qubits"))
    meth(w, qc, "append", meth(w, gate(w, "XGate"), "control", 1, ctrl_state="0"), [q[1], q[0]])
    meth(w, qc, "append", meth(w, gate(w, "PGate", s[0]), "control", 1, ctrl_state="1"), [q[0], q[1]])
    meth(w, qc, "ry", s[0], q[0])
    return meth(w, qc, "to_gate", "nested0")


def build(w, mk, syms):
    qc = new_circuit(w, 4)
    q = list(w.getattr(qc, "qubits"))
    op = mk(w, syms)
    n = op.attrs["num_qubits"]
    meth(w, qc, "rx", 0.3, q[2])
    meth(w, qc, "append", op, [q[i] for i in [2, 0, 3, 1][:n]])
    meth(w, qc, "ry", 0.45, q[0])
    return qc


def run(ctx):
    ctx.prog.add_stubs("tgt", "qiskit", "pytket", "pennylane", "stim", "cirq")
    for c, t in (("qiskit", "Qiskit"), ("pytket", "pytket"), ("pennylane", "PennyLane"), ("cirq", "Cirq"), ("stim", "Stim")):
        ctx.rule("to-" + c, "a circuit converted to %s has the matrix of the source up to a global phase, or is refused" % t, 10)
        ctx.rule("kept-" + c, "converting to %s leaves the source circuit as it was" % t, 10)
    ctx.rule("from-qiskit", "a Qiskit circuit is converted into a circuit with the same matrix", 10)
    ctx.rule("from-cirq", "a Cirq circuit is converted into a circuit with the same matrix, or is refused", 10)
    ctx.rule("classical", "measurements, resets and conditions keep their qubits, bits and condition value", 4)
    srcs = sources(ctx)
    for name in ("qiskit", "pytket", "pennylane", "cirq", "stim"):
        for s in srcs:
            to(ctx, name, *s)
    symbolic(ctx)
    from_qiskit(ctx)
    from_cirq(ctx)
    classical(ctx)


CALL = {
    "qiskit": ("qiskit_converter", "convert_to_qiskit"), "pytket": ("pytket_converter", "pytket_converter"),
    "pennylane": ("pennylane_converter", "qml_converter"), "cirq": ("cirq_converter", "convert_to_cirq"),
    "stim": ("stim_converter", "qrisp_to_stim"),
}


def convert(w, name, qc):
    mod, fn = CALL[name]
    r = w.call(w.lookup(CONV + mod, fn), [qc], {}, None)
    if name == "pennylane":
        w.call(r, [], {"wires": [0, 1, 2, 3][:len(qc.attrs["qubits"])]}, None)
        return w.lookup("pennylane", "TAPE")
    return r


def denote(name, r, env, n):
    if name == "qiskit":
        return F.qiskit_circuit(r, env)
    if name == "pytket":
        return F.tket_circuit(r, env)
    if name == "pennylane":
        return F.pl_tape(r, list(range(n)), env)
    if name == "cirq":
        return F.cirq_circuit(r, list(range(n)), env)
    return F.stim_circuit(r, n, env)


def to(ctx, name, label, npar, mk, must):
    if not ctx.mine():
        return
    syms = psyms(npar)
    key = "%s -> %s" % (label, name)
    rid = "to-" + name

    def body(w):
        qc = build(w, mk, syms)
        if name == "stim":
            # Stim has no rotations: only the gate itself
            qc.attrs["data"][:] = [i for i in qc.attrs["data"] if i.attrs["op"].attrs["name"] not in ("rx", "ry")] if must not in ("rx", "ry") else qc.attrs["data"]
        b = circ_snap(qc)
        r = convert(w, name, qc)
        return qc, r, b, circ_snap(qc)
    outs, complete = run_paths(ctx, body, syms, limit=16, max_paths=96)
    where = fn_loc(ctx, CONV + CALL[name][0], CALL[name][1])
    for o in outs:
        pts = points(o, syms)
        if not pts:
            continue
        if o.kind == "raise":
            if must in MUST and not (name == "stim" and must in ("rx", "ry", "rz", "p", "t", "t_dg")):
                ctx.violate(rid, key, loc(o.value.node) if o.value.node is not None else where, "conversion fails with %r when %s" % (o.value.exc, describe(o.conds)))
            else:
                refused(ctx, rid, key, loc(o.value.node) if o.value.node is not None else where, o.value.exc)
            continue
        if o.kind != "ok":
            ctx.unresolved(rid, key, o.value)
            continue
        qc, r, b, a = o.value
        if a != b:
            ctx.violate("kept-" + name, key, where, "the conversion changed the source circuit")
        else:
            ctx.ok("kept-" + name, key)
        for env in pts[:10]:
            try:
                M = denote(name, r, env, 4)
                R = O.circuit_matrix(qc, env, "denotation")
            except O.Undenotable as e:
                ctx.unresolved(rid, key, e)
                break
            except F.BadArity as e:
                ctx.violate(rid, key, where, str(e))
                break
            if not O.equal(M, R, True):
                ctx.violate(rid, key, where, "converted circuit has a different matrix at %s when %s" % (env, describe(o.conds)))
                break
        else:
            ctx.ok(rid, key)


def symbolic(ctx):
    for fac, npar in (("RXGate", 1), ("u3Gate", 3), ("CPGate", 1), ("XXYYGate", 2), ("RZZGate", 1)):
        syms = psyms(npar, "symbol")
        key = "symbolic %s -> qiskit" % fac
        if not ctx.mine():
            continue

        def body(w):
            qc = build(w, lambda w, s: gate(w, fac, *s), syms)
            return qc, convert(w, "qiskit", qc)
        outs, _ = run_paths(ctx, body, syms, limit=16, max_paths=96)
        for o in outs:
            pts = points(o, syms)
            if not pts:
                continue
            if o.kind != "ok":
                ctx.unresolved("to-qiskit", key, o.value)
                continue
            qc, r = o.value
            for env in pts[:8]:
                try:
                    ok = O.equal(F.qiskit_circuit(r, env), O.circuit_matrix(qc, env, "denotation"), True)
                except O.Undenotable as e:
                    ctx.unresolved("to-qiskit", key, e)
                    break
                if not ok:
                    ctx.violate("to-qiskit", key, fn_loc(ctx, CONV + "qiskit_converter", "convert_to_qiskit"),
                                "converted circuit has a different matrix at %s" % env)
                    break
            else:
                ctx.ok("to-qiskit", key)


QG = "qiskit.circuit.library.standard_gates"
QSRC = [("XGate", 0, 1), ("YGate", 0, 1), ("ZGate", 0, 1), ("HGate", 0, 1), ("SGate", 0, 1), ("SdgGate", 0, 1), ("TGate", 0, 1),
        ("TdgGate", 0, 1), ("SXGate", 0, 1), ("SXdgGate", 0, 1), ("IGate", 0, 1), ("RXGate", 1, 1), ("RYGate", 1, 1),
        ("RZGate", 1, 1), ("PhaseGate", 1, 1), ("U1Gate", 1, 1), ("U3Gate", 3, 1), ("UGate", 3, 1), ("RGate", 2, 1),
        ("SwapGate", 0, 2), ("RXXGate", 1, 2), ("RZZGate", 1, 2), ("CXGate", 0, 2), ("CYGate", 0, 2), ("CZGate", 0, 2),
        ("CPhaseGate", 1, 2), ("CRXGate", 1, 2), ("CRYGate", 1, 2), ("CRZGate", 1, 2), ("CCXGate", 0, 3), ("CSXGate", 0, 2), ("CU1Gate", 1, 2)]
FSYM = [0.37, -1.13, 0.92]


def from_qiskit(ctx):
    where = fn_loc(ctx, CONV + "qiskit_converter", "convert_from_qiskit")
    jobs = [(n, p, q, None) for n, p, q in QSRC]
    jobs += [(n, p, q, st) for n, p, q in (("XGate", 0, 1), ("RYGate", 1, 1), ("PhaseGate", 1, 1)) for st in ("01", "10", "0", "00")]
    jobs += [("composite", 1, 2, None), ("composite", 1, 2, "0")]
    for n, p, q, st in jobs:
        syms = psyms(p)
        key = "qiskit %s%s" % (n, "" if st is None else " controlled on %s" % st)
        if not ctx.mine():
            continue

        def body(w):
            if n == "composite":
                d = w.call(w.lookup("qiskit", "QuantumCircuit"), [2], {}, None)
                meth(w, d, "append", construct(w, "HGate", mod=QG), [1])
                meth(w, d, "append", construct(w, "CXGate", mod=QG), [1, 0])
                meth(w, d, "append", construct(w, "RYGate", [syms[0]], mod=QG), [0])
                d.attrs["global_phase"] = 0.7
                g = meth(w, d, "to_gate")
                g.attrs["name"] = "mygate"
            else:
                g = construct(w, n, syms, mod=QG)
            if st is not None:
                g = meth(w, g, "control", len(st), ctrl_state=st)
            k = g.attrs["nq"]
            qq = w.call(w.lookup("qiskit", "QuantumCircuit"), [4, 1], {}, None)
            meth(w, qq, "append", construct(w, "RXGate", [0.3], mod=QG), [2])
            meth(w, qq, "append", g, [2, 0, 3, 1][:k])
            meth(w, qq, "append", construct(w, "RYGate", [0.45], mod=QG), [0])
            add_definitions(w, qq)
            return qq, w.call(w.lookup(CONV + "qiskit_converter", "convert_from_qiskit"), [qq], {}, None)
        outs, _ = run_paths(ctx, body, syms, limit=12, max_paths=96)
        for o in outs:
            pts = points(o, syms)
            if not pts:
                continue
            if o.kind == "raise":
                ctx.violate("from-qiskit", key, where, "conversion fails with %r" % o.value.exc)
                continue
            if o.kind != "ok":
                ctx.unresolved("from-qiskit", key, o.value)
                continue
            qq, r = o.value
            judge_from(ctx, "from-qiskit", key, where, r, lambda env: F.qiskit_circuit(qq, env), pts)


def add_definitions(w, qq):
    """Decompositions the framework offers for gates without a counterpart."""
    defs = {"sdg": [("PhaseGate", -np.pi / 2)], "tdg": [("PhaseGate", -np.pi / 4)], "sxdg": [("SGate",), ("HGate",), ("SGate",)]}
    for ins in w.getattr(qq, "data"):
        op = ins.attrs["operation"]
        for g in (op, op.attrs.get("base")):
            if isinstance(g, Obj) and g.attrs["kind"] in defs:
                d = w.call(w.lookup("qiskit", "QuantumCircuit"), [1], {}, None)
                for x in defs[g.attrs["kind"]]:
                    meth(w, d, "append", construct(w, x[0], x[1:], mod=QG), [0])
                if g.attrs["kind"] == "sxdg":
                    d.attrs["global_phase"] = np.pi / 4
                g.attrs["definition"] = d


def judge_from(ctx, rid, key, where, r, ref, pts):
    for env in pts[:8]:
        try:
            M = O.circuit_matrix(r, env, "denotation")
            R = ref(env)
        except O.Undenotable as e:
            ctx.unresolved(rid, key, e)
            return
        if M.shape != R.shape or not O.equal(M, R, True):
            ctx.violate(rid, key, where, "converted circuit has a different matrix at %s" % env)
            return
    ctx.ok(rid, key)


def from_cirq(ctx):
    where = fn_loc(ctx, CONV + "cirq_converter", "convert_from_cirq")
    pl = ["X", "Y", "Z", "H", "S", "T", "CNOT", "CZ", "SWAP", "I"]
    jobs = [(n, None, None) for n in pl]
    for cls in ("XPowGate", "YPowGate", "ZPowGate", "HPowGate", "CXPowGate", "CZPowGate", "SwapPowGate"):
        for e in (0.5, -0.5, 0.25, -0.25, 1.0, 1.5, 0.3, -1.0, 3.0, 2.0):
            jobs.append((cls, e, None))
    jobs += [(c, e, None) for c in ("Rx", "Ry", "Rz") for e in (0.37, np.pi, np.pi / 2, -np.pi / 2, 2.5, 3 * np.pi)]
    jobs += [("X", None, s) for s in ([1], [0], [0, 1], [1, 0])] + [("Rx", 0.37, [0]), ("ZPowGate", 0.3, [0, 1]), ("XPowGate", 0.5, [1]),
                                                                   ("XPowGate", 0.3, [1]), ("YPowGate", 0.3, [1]), ("S", None, [0]), ("CNOT", None, [0])]
    jobs = [j + (False,) for j in jobs]
    jobs += [(n, e, s, True) for n, e in (("X", None), ("H", None), ("Rx", 0.37), ("XPowGate", 0.3), ("ZPowGate", 0.3), ("S", None), ("CNOT", None),
                                          ("GlobalPhaseGate", 0.4)) for s in ([0], [0, 1], [1, 0], [1, 1]) if not (n == "CNOT" and len(s) == 2)]
    for n, e, cv, as_op in jobs:
        key = "cirq %s%s%s%s" % (n, "" if e is None else "(%.3g)" % e, "" if cv is None else " controlled on %s" % cv, " (operation)" if as_op else "")
        if not ctx.mine():
            continue

        def body(w):
            g = w.lookup("cirq", n)
            if n == "GlobalPhaseGate":
                g = w.call(g, [complex(np.exp(1j * e))], {}, None)
            elif e is not None:
                g = w.call(g, [], {"exponent": e}, None) if n.endswith("PowGate") else w.call(g, [e], {}, None)
            if cv is not None and not as_op:
                g = meth(w, g, "controlled", num_controls=len(cv), control_values=list(cv))
            c = w.call(w.lookup("cirq", "Circuit"), [], {}, None)
            k = g.attrs.get("nq", 0) or (g.cls.lookup("nq")[0] if n != "GlobalPhaseGate" else 0)
            qs = [w.call(w.lookup("cirq", "LineQubit"), [i], {}, None) for i in range(4)]
            meth(w, c, "append", w.call(w.call(w.lookup("cirq", "Rx"), [0.3], {}, None), [qs[2]], {}, None))
            if as_op:
                sub = w.call(g, [qs[i] for i in [2, 0, 3, 1][len(cv):len(cv) + k]], {}, None)
                meth(w, c, "append", w.call(w.lookup("cirq", "ControlledOperation"), [[qs[i] for i in [2, 0][:len(cv)]], sub], {"control_values": list(cv)}, None))
            else:
                meth(w, c, "append", w.call(g, [qs[i] for i in [2, 0, 3, 1][:k]], {}, None))
            for i in (0, 1, 3):
                meth(w, c, "append", w.call(w.call(w.lookup("cirq", "Ry"), [0.3 + i], {}, None), [qs[i]], {}, None))
            return c, w.call(w.lookup(CONV + "cirq_converter", "convert_from_cirq"), [c], {}, None)
        outs, _ = run_paths(ctx, body)
        for o in outs:
            if o.kind == "raise":
                if n in pl and cv is None:
                    ctx.violate("from-cirq", key, where, "conversion fails with %r" % o.value.exc)
                else:
                    refused(ctx, "from-cirq", key, where, o.value.exc)
                continue
            if o.kind != "ok":
                ctx.unresolved("from-cirq", key, o.value)
                continue
            c, r = o.value
            judge_from(ctx, "from-cirq", key, where, r, lambda env: F.cirq_circuit(c, [0, 1, 2, 3], env), [{}])


# ---------------------------------------------------------------- classical part
def classical(ctx):
    if not ctx.mine():
        return
    def src(w, cond=None):
        qc = new_circuit(w, 3, 3)
        q = list(w.getattr(qc, "qubits"))
        c = list(w.getattr(qc, "clbits"))
        meth(w, qc, "h", q[1])
        meth(w, qc, "measure", q[1], c[2])
        meth(w, qc, "measure", q[2], c[0])
        if cond is not None:
            meth(w, qc, "append", meth(w, gate(w, "XGate"), "c_if", 1, cond), [q[0]], [c[2]])
        meth(w, qc, "measure", q[0], c[1])
        return qc

    def tk_view(w, r):
        ws = r.attrs["wires"]
        return [(ws.index(s.attrs["qubits"][0]), r.attrs["bits"].index(s.attrs["qubits"][1])) for s in r.attrs["steps"] if s.attrs["gate"].attrs["kind"] == "tk:Measure"]

    def qk_view(w, r):
        return [(r.attrs["qubits"].index(i.attrs["qubits"][0]), r.attrs["clbits"].index(i.attrs["clbits"][0])) for i in r.attrs["data"] if i.attrs["operation"].attrs["kind"] == "measure"]

    def st_view(w, r):
        return [(s.attrs["qubits"][0],) for s in r.attrs["steps"] if s.attrs["gate"].attrs["kind"] == "stim:M"]

    def cq_view(w, r):
        return [(op.attrs["qubits"][0].attrs["i"],) for op in r.attrs["ops"] if op.attrs["gate"].cls.name == "MeasurementGate"]

    def pl_view(w, r):
        return [tuple(o.attrs["wires"]) for o in r if o.attrs["kind"] == "measure"]
    full = [(1, 2), (2, 0), (0, 1)]
    short = [(1,), (2,), (0,)]
    for name, view, want in (("qiskit", qk_view, full), ("pytket", tk_view, full), ("stim", st_view, short), ("cirq", cq_view, short), ("pennylane", pl_view, short)):
        outs, _ = run_paths(ctx, lambda w: view(w, convert(w, name, src(w))))
        where = fn_loc(ctx, CONV + CALL[name][0], CALL[name][1])
        for o in outs:
            key = "measurements -> " + name
            if o.kind == "raise":
                ctx.violate("classical", key, where, "conversion fails with %r" % o.value.exc)
            elif o.kind != "ok":
                ctx.unresolved("classical", key, o.value)
            elif o.value != want:
                ctx.violate("classical", key, where, "measurements map to %r instead of %r" % (o.value, want))
            else:
                ctx.ok("classical", key)
    for cond in ("1", "0", 1, 0):
        for name in ("qiskit", "stim", "cirq", "pytket", "pennylane"):
            outs, _ = run_paths(ctx, lambda w: cond_view(w, name, convert(w, name, src(w, cond))))
            where = fn_loc(ctx, CONV + CALL[name][0], CALL[name][1])
            key = "x conditioned on %r -> %s" % (cond, name)
            for o in outs:
                if o.kind == "raise":
                    refused(ctx, "classical", key, where, o.value.exc)
                elif o.kind != "ok" or o.value is None:
                    ctx.unresolved("classical", key, o.value)
                elif o.value != (2, int(cond), 0):
                    ctx.violate("classical", key, where, "condition (bit, value, target) becomes %r instead of %r" % (o.value, (2, int(cond), 0)))
                else:
                    ctx.ok("classical", key)


def cond_view(w, name, r):
    if name == "qiskit":
        for i in r.attrs["data"]:
            op = i.attrs["operation"]
            if op.attrs["kind"] == "if":
                bit, val = op.attrs["condition"]
                b = op.attrs["true_body"]
                inner = [x.attrs["operation"].attrs["kind"] for x in b.attrs["data"]]
                if inner != ["x"]:
                    return ("body", inner)
                if bit not in i.attrs["clbits"]:
                    return ("condition bit is not among the bits of the instruction", bit.attrs["_index"])
                return (r.attrs["clbits"].index(bit), int(val), r.attrs["qubits"].index(i.attrs["qubits"][0]))
        return ("no condition",)
    if name == "stim":
        bits = []
        order = {1: 2, 2: 0, 0: 1}
        steps = r.attrs["steps"]
        n = 0
        flips = {}
        for s in steps:
            k = s.attrs["gate"].attrs["kind"][5:]
            t = s.attrs["qubits"]
            if k == "M":
                bits.append(order[t[0]])
            elif k == "CX" and isinstance(t[0], Obj):
                flips["rec"] = bits[t[0].attrs["offset"]]
                flips["target"] = t[1]
            elif k == "X":
                flips["x"] = not flips.get("x", False)
        if "rec" not in flips:
            return ("no condition",)
        return (flips["rec"], 0 if flips.get("x") else 1, flips["target"])
    return None
