"""Gate library: constructors denote the gate they are named after."""
import numpy as np

from .common import *


def block_diag_in(M, i, n):
    """M never changes the computational value of qubit i."""
    T = M.reshape([2] * (2 * n))
    A = np.moveaxis(T, (i, n + i), (0, 1))
    return np.max(np.abs(A[0, 1])) < 1e-6 and np.max(np.abs(A[1, 0])) < 1e-6


def is_monomial(M):
    nz = np.abs(M) > 1e-5
    return bool(np.all(nz.sum(axis=0) == 1) and np.all(nz.sum(axis=1) == 1))


def run(ctx):
    ctx.rule("matrix", "stored definition/angles/unitary of a standard gate equal the textbook matrix", 20)
    ctx.rule("signature", "name, qubit count and parameter list of a standard gate are the documented ones", 20)
    ctx.rule("unitary-query", "the matrix reported by the gate itself equals the textbook matrix", 6)
    ctx.rule("permeable-flag", "a qubit flagged permeable is only acted on diagonally", 10)
    ctx.rule("qfree-flag", "a gate flagged quantum-free maps basis states to basis states", 8)
    ctx.rule("special-op", "measurement, reset, barrier and (de)allocation have documented arity and flags", 4)
    for fac, nm in FACTORIES.items():
        nq, npar, f = O.GATES[nm]
        ent = ctx.prog.resolve("qrisp.circuit", fac)
        if ent is None:
            ctx.unresolved("matrix", fac, "constructor not found")
            continue
        where = fn_loc(ctx, "qrisp.circuit", fac)
        kinds = ["float"] + (["symbol"] if npar else [])
        for kind in kinds:
            syms = psyms(npar, kind)

            def body(w):
                op = gate(w, fac, *syms)
                u = None
                if kind == "float":
                    try:
                        u = meth(w, op, "get_unitary")
                    except (AbsRaise, Imprecise):
                        u = None
                return op, u
            outs, complete = run_paths(ctx, body, syms, models={
                "QuantumCircuit.get_unitary": lambda w, a, k, n, f: w.fresh("simulated")})
            for o in outs:
                key = "%s/%s" % (fac, kind)
                pts = points(o, syms)
                if not pts:
                    continue
                if o.kind == "raise":
                    ctx.violate("matrix", key, where, "constructing the gate raises %r when %s" % (o.value.exc, describe(o.conds)))
                    continue
                if o.kind != "ok" or not isinstance(o.value[0], Obj):
                    ctx.unresolved("matrix", key, o.value)
                    continue
                op, u = o.value
                ref = lambda env: f(*[env[s.name] for s in syms])
                check_matrix(ctx, "matrix", key, where, op, ref, syms, o)
                signature(ctx, op, fac, nm, nq, npar, syms, key, where, o, pts)
                flags(ctx, op, ref, nq, key, where, pts)
                if isinstance(u, np.ndarray):
                    query(ctx, u, ref, key, where, pts)
    specials(ctx)
    mcx(ctx)


def signature(ctx, op, fac, nm, nq, npar, syms, key, where, o, pts):
    a = op.attrs
    name = a.get("name")
    if not isinstance(name, str):
        ctx.unresolved("signature", key, "name not constant")
        return
    problems = []
    if a.get("num_qubits") != nq:
        problems.append("acts on %r qubits instead of %d" % (a.get("num_qubits"), nq))
    # the published name and parameters must describe the same matrix
    for env in pts:
        try:
            R = O.GATES[nm][2](*[env[s.name] for s in syms])
            N = name_matrix(op, env)
        except O.Undenotable as e:
            continue
        if N is None:
            if name != nm:
                problems.append("published name %r is not %r" % (name, nm))
            else:
                problems.append("published parameters %r do not fit gate %r" % (a.get("params"), nm))
            break
        if not O.equal(N, R):
            problems.append("published as %s%r, which is a different matrix at %s" % (name, tuple(a.get("params")), env))
            break
    if problems:
        ctx.violate("signature", key, where, "; ".join(problems))
    else:
        ctx.ok("signature", key)


def flags(ctx, op, ref, nq, key, where, pts):
    perm = op.attrs.get("permeability")
    qf = op.attrs.get("is_qfree")
    mats = [ref(e) for e in pts[:12]]
    if isinstance(perm, dict):
        for i in range(nq):
            if perm.get(i) is True:
                bad = [m for m in mats if not block_diag_in(m, i, nq)]
                if bad:
                    ctx.violate("permeable-flag", "%s qubit %d" % (key, i), where,
                                "qubit %d is flagged permeable but the gate changes its value" % i)
                else:
                    ctx.ok("permeable-flag", "%s qubit %d" % (key, i))
    if qf is True:
        if all(is_monomial(m) for m in mats):
            ctx.ok("qfree-flag", key)
        else:
            ctx.violate("qfree-flag", key, where, "flagged quantum-free but creates superpositions")


def query(ctx, u, ref, key, where, pts):
    for env in pts:
        try:
            M = np.array([complex(O.evalterm(x, env)) for x in u.ravel()]).reshape(u.shape)
        except (KeyError, TypeError) as e:
            ctx.unresolved("unitary-query", key, e)
            return
        R = ref(env)
        if M.shape != R.shape or not O.equal(M, R, tol=1e-4):
            ctx.violate("unitary-query", key, where, "reported unitary differs from the textbook matrix at %s" % env)
            return
    ctx.ok("unitary-query", key)


def specials(ctx):
    spec = {"Measurement": ("measure", 1, 1), "Reset": ("reset", 1, 0), "QubitAlloc": ("qb_alloc", 1, 0),
            "QubitDealloc": ("qb_dealloc", 1, 0)}
    for fac, (nm, nq, nc) in spec.items():
        if ctx.prog.resolve("qrisp.circuit", fac) is None:
            ctx.unresolved("special-op", fac, "not found")
            continue
        where = fn_loc(ctx, "qrisp.circuit", fac)
        outs, _ = run_paths(ctx, lambda w: gate(w, fac))
        for o in outs:
            if o.kind != "ok" or not isinstance(o.value, Obj):
                ctx.unresolved("special-op", fac, o.value)
                continue
            a = o.value.attrs
            got = (a.get("name"), a.get("num_qubits"), a.get("num_clbits"))
            perm = a.get("permeability")
            bad = []
            if got != (nm, nq, nc):
                bad.append("signature %r" % (got,))
            if nm != "measure" and isinstance(perm, dict) and perm.get(0) is True:
                bad.append("flagged permeable although it resets or frees the qubit")
            if bad:
                ctx.violate("special-op", fac, where, "; ".join(bad))
            else:
                ctx.ok("special-op", fac)
    for n in (1, 2, 3):
        if ctx.prog.resolve("qrisp.circuit", "Barrier") is None:
            break
        outs, _ = run_paths(ctx, lambda w: gate(w, "Barrier", n))
        for o in outs:
            if o.kind == "ok" and isinstance(o.value, Obj):
                a = o.value.attrs
                if a.get("num_qubits") != n or any(v is True for v in (a.get("permeability") or {}).values()):
                    ctx.violate("special-op", "Barrier", fn_loc(ctx, "qrisp.circuit", "Barrier"),
                                "barrier on %d qubits has %r qubits, permeability %r" % (n, a.get("num_qubits"), a.get("permeability")))
                else:
                    ctx.ok("special-op", "Barrier(%d)" % n)


def mcx(ctx):
    """MCXGate / MCRXGate over control counts and control states."""
    where = fn_loc(ctx, "qrisp.circuit", "MCXGate")
    for n in (1, 2, 3):
        for st in range(2 ** n):
            bits = format(st, "0%db" % n)
            outs, _ = run_paths(ctx, lambda w: gate(w, "MCXGate", n, bits))
            for o in outs:
                key = "MCXGate(%d,%s)" % (n, bits)
                if o.kind != "ok" or not isinstance(o.value, Obj):
                    if o.kind == "raise":
                        ctx.violate("matrix", key, where, "raises %r" % o.value.exc)
                    else:
                        ctx.unresolved("matrix", key, o.value)
                    continue
                check_matrix(ctx, "matrix", key, where, o.value, lambda e: O.ctrl(O.X, n, bits), (), o)
    where = fn_loc(ctx, "qrisp.circuit", "MCRXGate")
    for n in (1, 2, 3):
        syms = psyms(1)
        outs, _ = run_paths(ctx, lambda w: gate(w, "MCRXGate", syms[0], n), syms)
        for o in outs:
            if o.kind == "ok" and isinstance(o.value, Obj):
                check_matrix(ctx, "matrix", "MCRXGate(%d)" % n, where, o.value,
                             lambda e: O.ctrl(O.rot(O.X, e["p0"]), n), syms, o)
            else:
                ctx.unresolved("matrix", "MCRXGate", o.value)
