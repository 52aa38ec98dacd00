"""Controlled gates: applied exactly on the requested control state."""
import numpy as np

from .common import *
from .C02 import composite, snapshot, diff

SHARED = True

BASES = [("XGate", 0), ("YGate", 0), ("ZGate", 0), ("HGate", 0), ("SGate", 0), ("TGate", 0), ("SXGate", 0),
         ("SXDGGate", 0), ("IDGate", 0), ("RXGate", 1), ("RYGate", 1), ("RZGate", 1), ("PGate", 1), ("U1Gate", 1),
         ("GPhaseGate", 1), ("u3Gate", 3), ("SwapGate", 0), ("RXXGate", 1), ("RZZGate", 1), ("CXGate", 0),
         ("CPGate", 1), ("CZGate", 0)]


def states(n, ctx):
    return [format(i, "0%db" % n) for i in range(2 ** n)]


def run(ctx):
    ctx.rule("block", "a controlled gate applies its base gate exactly when the controls hold the control state", 80)
    ctx.rule("order", "controls come first, in order, in the qubit list of a controlled gate", 80)
    ctx.rule("name", "the published name and parameters of a controlled gate describe the gate", 5)
    ctx.rule("nested", "controlling a controlled gate is the same as one gate with all controls", 10)
    ctx.rule("int-state", "an integer control state selects bit i for control i", 8)
    ctx.rule("phase-tolerant", "phase tolerant variants apply the base gate on the control state and only phases elsewhere", 6)
    ctx.rule("reject", "a control state that does not fit the number of controls is refused", 2)
    ctx.rule("flags", "controls flagged permeable and quantum-free flags agree with the matrix", 40)
    ctx.rule("definition", "the matrix query of a controlled gate returns the controlled matrix", 5)
    for fac, npar in BASES:
        nb = O.GATES[FACTORIES[fac]][0]
        for n in (1, 2, 3):
            if n == 3 and (npar == 3 or nb > 1) and not ctx.thorough:
                continue
            for st in states(n, ctx):
                methods = ["auto"] if n != 2 else ["auto", "gray"]
                for method in methods:
                    one(ctx, fac, npar, n, st, method)
    sy = psyms(2)
    for st in ("1", "0"):
        custom(ctx, sy, st)
    nested(ctx)
    ints(ctx)
    pt(ctx)
    rejects(ctx)
    queries(ctx)


def ctrl_loc(ctx):
    return fn_loc(ctx, "qrisp.circuit.operation", "PTControlledOperation")


def bad_out(ctx, rid, key, o, where):
    if o.kind == "raise":
        ctx.violate(rid, key, loc(o.value.node) if o.value.node is not None else where,
                    "controlling raises %r when %s" % (o.value.exc, describe(o.conds)))
    else:
        ctx.unresolved(rid, key, o.value)


def one(ctx, fac, npar, n, st, method):
    if not ctx.mine():
        return
    syms = psyms(npar)
    key = "%s.control(%d,%s,%s)" % (fac, n, st, method)
    f = O.GATES[FACTORIES[fac]][2]

    def body(w):
        op = gate(w, fac, *syms)
        b = snapshot(op)
        c = meth(w, op, "control", n, ctrl_state=st, method=method)
        return op, c, b, snapshot(op)
    outs, _ = run_paths(ctx, body, syms, limit=24)
    for o in outs:
        pts = points(o, syms)
        if not pts:
            continue
        where = ctrl_loc(ctx)
        if o.kind != "ok" or not isinstance(o.value[1], Obj):
            bad_out(ctx, "block", key, o, where)
            continue
        op, c, b, a = o.value
        ref = lambda env: O.ctrl(f(*[env[s.name] for s in syms]), n, st)
        check_matrix(ctx, "block", key, where, c, ref, syms, o)
        nb = op.attrs.get("num_qubits")
        if c.attrs.get("num_qubits") != nb + n:
            ctx.violate("order", key, where, "controlled gate has %r qubits instead of %d" % (c.attrs.get("num_qubits"), nb + n))
        elif b != a:
            ctx.violate("order", key, where, "controlling changed the base gate: %s -> %s" % diff(b, a))
        else:
            ctx.ok("order", key)
        for env in pts:
            try:
                N = name_matrix(c, env)
                R = ref(env)
            except O.Undenotable:
                N = None
            if N is not None and (N.shape != R.shape or not O.equal(N, R)):
                ctx.violate("name", key, where, "published as %s%r (control state %s), a different matrix" % (
                    c.attrs.get("name"), c.attrs.get("params"), c.attrs.get("ctrl_state")))
                break
        else:
            if c.attrs.get("name") in O.GATES:
                ctx.ok("name", key)
        flags(ctx, c, ref, key, where, pts)


def flags(ctx, op, ref, key, where, pts):
    from .C01 import block_diag_in, is_monomial
    perm = op.attrs.get("permeability")
    mats = [ref(e) for e in pts[:4]]
    nq = op.attrs.get("num_qubits")
    if isinstance(perm, dict):
        for i in range(nq):
            if perm.get(i) is True and not all(block_diag_in(m, i, nq) for m in mats):
                ctx.violate("flags", key, where, "qubit %d is flagged permeable but its value changes" % i)
                return
    if op.attrs.get("is_qfree") is True and not all(is_monomial(m) for m in mats):
        ctx.violate("flags", key, where, "flagged quantum-free but creates superpositions")
        return
    ctx.ok("flags", key)


def custom(ctx, syms, st):
    if not ctx.mine():
        return
    key = "custom gate.control(1,%s)" % st
    outs, _ = run_paths(ctx, lambda w: (lambda g: (g, meth(w, g, "control", 1, ctrl_state=st)))(composite(w, syms)), syms, limit=24)
    for o in outs:
        if not points(o, syms):
            continue
        if o.kind != "ok" or not isinstance(o.value[1], Obj):
            bad_out(ctx, "block", key, o, ctrl_loc(ctx))
            continue
        g, c = o.value
        check_matrix(ctx, "block", key, ctrl_loc(ctx), c, lambda env: O.ctrl(O.op_matrix(g, env), 1, st), syms, o,
                     vias=("definition",))


def nested(ctx):
    for fac, npar in (("XGate", 0), ("YGate", 0), ("RYGate", 1), ("PGate", 1), ("SwapGate", 0), ("GPhaseGate", 1), ("HGate", 0)):
        syms = psyms(npar)
        f = O.GATES[FACTORIES[fac]][2]
        for s1 in ("1", "0"):
            for s2 in ("1", "0", "01", "10"):
                key = "%s.control(1,%s).control(%d,%s)" % (fac, s1, len(s2), s2)
                if not ctx.mine():
                    continue
                outs, _ = run_paths(ctx, lambda w: meth(w, meth(w, gate(w, fac, *syms), "control", 1, ctrl_state=s1),
                                                        "control", len(s2), ctrl_state=s2), syms, limit=24)
                for o in outs:
                    if not points(o, syms):
                        continue
                    if o.kind != "ok" or not isinstance(o.value, Obj):
                        bad_out(ctx, "nested", key, o, ctrl_loc(ctx))
                        continue
                    check_matrix(ctx, "nested", key, ctrl_loc(ctx), o.value,
                                 lambda env: O.ctrl(O.ctrl(f(*[env[s.name] for s in syms]), 1, s1), len(s2), s2), syms, o)


def ints(ctx):
    for fac, npar in (("XGate", 0), ("RXGate", 1), ("SwapGate", 0), ("ZGate", 0)):
        syms = psyms(npar)
        f = O.GATES[FACTORIES[fac]][2]
        for n in (1, 2, 3):
            if n == 3 and fac != "XGate":
                continue
            for k in range(2 ** n):
                bits = "".join(str((k >> i) & 1) for i in range(n))
                key = "%s.control(%d,ctrl_state=%d)" % (fac, n, k)
                if not ctx.mine():
                    continue
                outs, _ = run_paths(ctx, lambda w: meth(w, gate(w, fac, *syms), "control", n, ctrl_state=k), syms, limit=24)
                for o in outs:
                    if not points(o, syms):
                        continue
                    if o.kind != "ok" or not isinstance(o.value, Obj):
                        bad_out(ctx, "int-state", key, o, ctrl_loc(ctx))
                        continue
                    check_matrix(ctx, "int-state", key, ctrl_loc(ctx), o.value,
                                 lambda env: O.ctrl(f(*[env[s.name] for s in syms]), n, bits), syms, o)


def pt(ctx):
    for fac, npar in (("XGate", 0), ("RXGate", 1), ("RYGate", 1), ("RZGate", 1), ("PGate", 1)):
        syms = psyms(npar)
        f = O.GATES[FACTORIES[fac]][2]
        for method in ("gray_pt", "gray_pt_inv"):
            for n in (2, 3):
                for st in ("1" * n, "0" + "1" * (n - 1)):
                    key = "%s.control(%d,%s,%s)" % (fac, n, st, method)
                    if not ctx.mine():
                        continue
                    outs, _ = run_paths(ctx, lambda w: meth(w, gate(w, fac, *syms), "control", n, ctrl_state=st, method=method), syms, limit=24)
                    for o in outs:
                        pts = points(o, syms)
                        if not pts:
                            continue
                        if o.kind != "ok" or not isinstance(o.value, Obj):
                            ctx.unresolved("phase-tolerant", key, o.value)
                            continue
                        judge_pt(ctx, o.value, f, syms, n, st, key, pts, method)


def judge_pt(ctx, op, f, syms, n, st, key, pts, method):
    for env in pts[:6]:
        try:
            M = O.op_matrix(op, env, "definition")
        except O.Undenotable as e:
            ctx.unresolved("phase-tolerant", key, e)
            return
        U = f(*[env[s.name] for s in syms])
        if method == "gray_pt_inv" and syms:
            # variant used to undo a phase tolerant gate; its block is the inverse
            alts = [U, U.conj().T]
        else:
            alts = [U]
        d = U.shape[0]
        k = int(st, 2)
        for i in range(2 ** n):
            for j in range(2 ** n):
                B = M[i * d:(i + 1) * d, j * d:(j + 1) * d]
                if i != j:
                    if np.max(np.abs(B)) > 1e-6:
                        ctx.violate("phase-tolerant", key, ctrl_loc(ctx), "control value %d leaks into %d" % (j, i))
                        return
                elif i == k:
                    if not any(np.allclose(np.abs(B), np.abs(A), atol=1e-6) for A in alts):
                        ctx.violate("phase-tolerant", key, ctrl_loc(ctx), "base gate not applied on control state %s at %s" % (st, env))
                        return
                elif np.max(np.abs(B - np.diag(np.diag(B)))) > 1e-6:
                    ctx.violate("phase-tolerant", key, ctrl_loc(ctx), "more than phases applied on control value %d" % i)
                    return
    ctx.ok("phase-tolerant", key)


def rejects(ctx):
    if not ctx.mine():
        return
    for fac in ("XGate", "RXGate", "SwapGate"):
        for n, st in ((1, "11"), (2, "1"), (3, "01")):
            args = [0.3] if fac == "RXGate" else []
            outs, _ = run_paths(ctx, lambda w: meth(w, gate(w, fac, *args), "control", n, ctrl_state=st))
            for o in outs:
                key = "%s.control(%d,%s)" % (fac, n, st)
                if o.kind == "raise":
                    ctx.ok("reject", key)
                elif o.kind == "ok":
                    ctx.violate("reject", key, ctrl_loc(ctx), "accepted a control state of the wrong length")
                else:
                    ctx.unresolved("reject", key, o.value)


def queries(ctx):
    """get_unitary of a controlled operation."""
    for fac, args in (("XGate", ()), ("YGate", ()), ("HGate", ()), ("RXGate", (0.37,)), ("PGate", (0.81,)), ("RZGate", (0.7,)), ("u3Gate", (0.3, 0.5, 1.1))):
        f = O.GATES[FACTORIES[fac]][2]
        for st in ("1", "0", "10", "01", "00"):
            n = len(st)
            key = "%s.control(%d,%s).get_unitary()" % (fac, n, st)
            if not ctx.mine():
                continue
            outs, _ = run_paths(ctx, lambda w: meth(w, meth(w, gate(w, fac, *args), "control", n, ctrl_state=st), "get_unitary"))
            for o in outs:
                if o.kind != "ok" or not isinstance(o.value, np.ndarray):
                    ctx.unresolved("definition", key, o.value)
                    continue
                M = np.array(o.value, dtype=complex)
                R = O.ctrl(f(*args), n, st)
                if M.shape != R.shape or not O.equal(M, R, tol=1e-4):
                    ctx.violate("definition", key, fn_loc(ctx, "qrisp.simulator.unitary_management", "controlled_unitary"),
                                "matrix query differs from the controlled gate")
                else:
                    ctx.ok("definition", key)
