"""Inverses: gate, instruction and circuit inversion produce the adjoint."""
import numpy as np

from .common import *

SHARED = True

BASES = list(FACTORIES)


def composite(w, syms):
    """A user-made gate from a circuit definition."""
    qc = new_circuit(w, 2)
    qs = qc.attrs["qubits"]
    meth(w, qc, "append", gate(w, "RYGate", syms[0]), [qs[0]])
    meth(w, qc, "append", gate(w, "CXGate"), [qs[0], qs[1]])
    meth(w, qc, "append", gate(w, "PGate", syms[1]), [qs[1]])
    meth(w, qc, "append", gate(w, "TGate"), [qs[0]])
    return meth(w, qc, "to_gate", name="custom")


def run(ctx):
    ctx.rule("adjoint", "inverse() of a gate denotes the conjugate transpose of the gate", 40)
    ctx.rule("name", "the published name and parameters of an inverted gate describe the inverted gate", 15)
    ctx.rule("source-kept", "inverting a gate leaves the gate itself unchanged", 40)
    ctx.rule("double", "inverting twice gives back the gate", 40)
    ctx.rule("circuit", "inverting a circuit reverses the order and inverts every instruction on its own bits", 4)
    ctx.rule("refuse", "operations without an inverse are refused", 2)
    cases = []
    for fac in BASES:
        npar = O.GATES[FACTORIES[fac]][1]
        for kind in ["float"] + (["symbol"] if npar else []):
            syms = psyms(npar, kind)
            cases.append(("%s/%s" % (fac, kind), lambda w, fac=fac, syms=syms: gate(w, fac, *syms), syms))
    for fac, npar in (("XGate", 0), ("RXGate", 1), ("SGate", 0), ("u3Gate", 3), ("SwapGate", 0), ("HGate", 0),
                      ("RZGate", 1), ("GPhaseGate", 1), ("YGate", 0), ("TGate", 0), ("PGate", 1), ("SXGate", 0)):
        syms = psyms(npar)
        for n, st in ((1, "1"), (1, "0"), (2, "10"), (2, "01"), (2, "11")):
            if npar == 3 and n > 1 and not ctx.thorough:
                continue
            cases.append(("%s.control(%d,%s)" % (fac, n, st),
                          lambda w, fac=fac, syms=syms, n=n, st=st: meth(w, gate(w, fac, *syms), "control", n, ctrl_state=st), syms))
    sy = psyms(2)
    cases.append(("custom gate", lambda w: composite(w, sy), sy))
    cases.append(("custom gate/control", lambda w: meth(w, composite(w, sy), "control", 1), sy))
    for key, mkop, syms in cases:
        one(ctx, key, mkop, syms)
    circuits(ctx)
    refusals(ctx)


def one(ctx, key, mkop, syms):
    if not ctx.mine():
        return
    where = "inverse of " + key

    def body(w):
        op = mkop(w)
        before = snapshot(op)
        inv = meth(w, op, "inverse")
        after = snapshot(op)
        dbl = meth(w, inv, "inverse") if isinstance(inv, Obj) else None
        return op, inv, dbl, before, after
    outs, _ = run_paths(ctx, body, syms, limit=60)
    for o in outs:
        pts = points(o, syms)
        if not pts:
            continue
        if o.kind == "raise":
            ctx.violate("adjoint", key, loc(o.value.node) if o.value.node is not None else where,
                        "inverting raises %r when %s" % (o.value.exc, describe(o.conds)))
            continue
        if o.kind != "ok" or not isinstance(o.value[1], Obj):
            ctx.unresolved("adjoint", key, o.value)
            continue
        op, inv, dbl, before, after = o.value
        where = inv_loc(op)

        def ref(env):
            return O.op_matrix(op, env).conj().T
        check_matrix(ctx, "adjoint", key, where, inv, ref, syms, o)
        if isinstance(dbl, Obj):
            check_matrix(ctx, "double", key, where, dbl, lambda env: O.op_matrix(op, env), syms, o)
        if before != after:
            ctx.violate("source-kept", key, where, "inverse() changed the original: %s -> %s" % diff(before, after))
        else:
            ctx.ok("source-kept", key)
        if inv.attrs.get("num_qubits") != op.attrs.get("num_qubits") or inv.attrs.get("num_clbits") != op.attrs.get("num_clbits"):
            ctx.violate("name", key, where, "inverse acts on a different number of bits")
        for env in pts:
            try:
                N = name_matrix(inv, env)
                R = ref(env)
            except O.Undenotable:
                N = None
            if N is None:
                continue
            if N.shape != R.shape or not O.equal(N, R):
                ctx.violate("name", key, where, "inverse is published as %s%r, which is a different matrix" % (
                    inv.attrs.get("name"), inv.attrs.get("params")))
                break
        else:
            if isinstance(inv.attrs.get("name"), str) and inv.attrs["name"] in O.GATES:
                ctx.ok("name", key)


def inv_loc(op):
    f, c = op.cls.lookup("inverse")
    ov = op.attrs.get("inverse")
    if f is not None and hasattr(f, "node"):
        return "%s (%s.inverse)" % (loc(f.node), c.name)
    return "inverse"


def snapshot(op, depth=0):
    """Observable fields of an operation, as hashable data."""
    if not isinstance(op, Obj) or depth > 3:
        return repr(op)
    a = op.attrs
    out = []
    for k in ("name", "num_qubits", "num_clbits", "params", "theta", "phi", "lam", "global_phase", "ctrl_state",
              "controls", "is_qfree", "permeability"):
        if k in a:
            out.append((k, repr(a[k])))
    d = a.get("definition")
    if isinstance(d, Obj) and isinstance(d.attrs.get("data"), list):
        qs = d.attrs.get("qubits")
        for ins in d.attrs["data"]:
            if isinstance(ins, Obj):
                out.append(("ins", snapshot(ins.attrs.get("op"), depth + 1),
                            tuple(qs.index(q) if q in qs else -1 for q in ins.attrs.get("qubits", []))))
    b = a.get("base_operation")
    if isinstance(b, Obj):
        out.append(("base", snapshot(b, depth + 1)))
    return tuple(out)


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return str(x)[:120], str(y)[:120]
    return str(a)[:120], str(b)[:120]


def circuits(ctx):
    if not ctx.mine():
        return
    syms = psyms(3)
    where = fn_loc(ctx, "qrisp.circuit", "QuantumCircuit") + ".inverse"

    def build(w, nc):
        qc = new_circuit(w, 3, nc)
        q = qc.attrs["qubits"]
        seq = [("RXGate", [syms[0]], [0]), ("CXGate", [], [0, 2]), ("u3Gate", syms, [1]), ("SwapGate", [], [2, 1]),
               ("SGate", [], [0]), ("CPGate", [syms[1]], [1, 0]), ("GPhaseGate", [syms[2]], [2]), ("TGate", [], [1])]
        for fac, ps, ix in seq:
            meth(w, qc, "append", gate(w, fac, *ps), [q[i] for i in ix])
        return qc, seq

    def body(w):
        qc, seq = build(w, 0)
        b = circ_snap(qc)
        inv = meth(w, qc, "inverse")
        return qc, inv, b, circ_snap(qc)
    outs, _ = run_paths(ctx, body, syms, limit=40)
    for o in outs:
        if not points(o, syms):
            continue
        if o.kind != "ok":
            (ctx.violate("circuit", "circuit inverse", where, o.value) if o.kind == "raise"
             else ctx.unresolved("circuit", "circuit inverse", o.value))
            continue
        qc, inv, b, a = o.value
        for env in points(o, syms)[:8]:
            try:
                M = O.circuit_matrix(qc, env)
                N = O.circuit_matrix(inv, env)
            except O.Undenotable as e:
                ctx.unresolved("circuit", "circuit inverse", e)
                break
            if not O.equal(N, M.conj().T):
                ctx.violate("circuit", "circuit inverse", where, "inverse circuit is not the adjoint at %s" % env)
                break
        else:
            ctx.ok("circuit", "8 gate circuit")
        if b != a:
            ctx.violate("circuit", "circuit inverse mutates", where, "inverting changed the source circuit")
        else:
            ctx.ok("circuit", "source circuit unchanged")
        qb = [x.attrs.get("identifier") for x in qc.attrs["qubits"]]
        qi = [x.attrs.get("identifier") for x in inv.attrs["qubits"]]
        if qb != qi:
            ctx.violate("circuit", "circuit inverse qubits", where, "qubit order %s became %s" % (qb, qi))
        else:
            ctx.ok("circuit", "qubit order kept")

    # instruction inverse keeps its bits
    def body2(w):
        qc = new_circuit(w, 3, 2)
        q = qc.attrs["qubits"]
        meth(w, qc, "append", gate(w, "CXGate"), [q[2], q[0]])
        ins = qc.attrs["data"][0]
        return ins, meth(w, ins, "inverse")
    outs, _ = run_paths(ctx, body2)
    for o in outs:
        if o.kind != "ok" or not isinstance(o.value[1], Obj):
            ctx.unresolved("circuit", "instruction inverse", o.value)
            continue
        i, j = o.value
        if [id(x) for x in i.attrs["qubits"]] != [id(x) for x in j.attrs["qubits"]] or \
                [id(x) for x in i.attrs["clbits"]] != [id(x) for x in j.attrs["clbits"]]:
            ctx.violate("circuit", "instruction inverse", inv_loc(i), "inverted instruction acts on different bits")
        elif i.attrs["qubits"] is j.attrs["qubits"]:
            ctx.violate("circuit", "instruction inverse", inv_loc(i), "inverted instruction shares its bit list with the original")
        else:
            ctx.ok("circuit", "instruction inverse")


def circ_snap(qc):
    qs = qc.attrs["qubits"]
    return [(snapshot(i.attrs["op"]), [qs.index(x) for x in i.attrs["qubits"]]) for i in qc.attrs["data"]]


def refusals(ctx):
    if not ctx.mine():
        return
    for fac in ("Measurement", "Reset"):
        where = fn_loc(ctx, "qrisp.circuit", fac)
        outs, _ = run_paths(ctx, lambda w: meth(w, gate(w, fac), "inverse"))
        for o in outs:
            if o.kind == "raise":
                ctx.ok("refuse", fac)
            elif o.kind == "ok":
                ctx.violate("refuse", fac, where, "inverting this operation silently returns %r" % (o.value,))
            else:
                ctx.unresolved("refuse", fac, o.value)
