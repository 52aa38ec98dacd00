"""Gate functions and circuit methods apply the gate they name."""
import numpy as np

from .common import *

GAF = "qrisp.core.gate_application_functions"
CRX = lambda a: O.ctrl(O.rot(O.X, a))
CRZ = lambda a: O.ctrl(O.rot(O.Z, a))
EXTRA = {"crx": (2, 1, CRX), "crz": (2, 1, CRZ)}
U_SAMPLES = {
    "H": O.H, "S": O.phase(np.pi / 2), "Y": O.Y, "U3": O.u3(0.3, 1.2, -0.7), "iU3": 1j * O.u3(2.1, 0.4, 1.9),
    "pU3": np.exp(0.6j) * O.u3(-1.1, 2.7, 0.3),
}


def recorder(w, nq):
    """A circuit that takes the place of the session the qubits belong to."""
    qc = new_circuit(w, nq)
    return qc


def spec(nm):
    return O.GATES.get(nm) or EXTRA.get(nm)


def run(ctx):
    ctx.rule("method", "a circuit method appends the gate it is named after on the given qubits", 20)
    ctx.rule("function", "a gate function appends the gate it is named after on the given qubits", 15)
    ctx.rule("traced", "a gate function traces the gate it is named after with its parameters in order", 15)
    ctx.rule("broadcast", "a gate applied to a list of qubits acts on each of them", 20)
    ctx.rule("mc", "multi-controlled functions act on the requested control state", 20)
    ctx.rule("unitary", "a gate given as a matrix is appended as that matrix", 6)
    ctx.rule("measure", "measure and reset act on exactly the given qubits and classical bits", 4)
    names = list(O.GATES) + list(EXTRA)
    qcls = ctx.prog.resolve("qrisp.circuit", "QuantumCircuit")
    gaf = ctx.prog.modules.get(GAF)
    if qcls is None or gaf is None:
        raise AnchorLost("circuit class or gate functions not found")
    for nm in names:
        nq, npar, f = spec(nm)
        method(ctx, nm, nq, npar, f)
        function(ctx, nm, nq, npar, f, False)
        function(ctx, nm, nq, npar, f, True)
    mc(ctx)
    unitaries(ctx)
    measures(ctx)


def has_method(w, nm):
    cls = w.lookup("qrisp.circuit", "QuantumCircuit")
    return cls.lookup(nm)[0] is not None


def wires(w, qc):
    return list(w.getattr(qc, "qubits"))


def judge(ctx, rid, key, o, syms, ref, where, wire_count):
    pts = points(o, syms)
    if not pts:
        return
    if o.kind == "raise":
        ctx.violate(rid, key, loc(o.value.node) if o.value.node is not None else where,
                    "raises %r when %s" % (o.value.exc, describe(o.conds)))
        return
    if o.kind != "ok":
        ctx.unresolved(rid, key, o.value)
        return
    qc = o.value
    if qc is None:
        return
    for env in pts:
        try:
            M = O.circuit_matrix(qc, env)
        except O.Undenotable as e:
            ctx.unresolved(rid, key, e)
            return
        R = ref(env)
        if M.shape != R.shape or not O.equal(M, R):
            ctx.violate(rid, key, where, "applied gates do not amount to %s at %s (%s) when %s" % (
                key, env, gates_of(qc), describe(o.conds)))
            return
    ctx.ok(rid, key)


def gates_of(qc):
    out = []
    data = qc.attrs.get("data")
    if not isinstance(data, list):
        return "?"
    for ins in data[:6]:
        op = ins.attrs.get("op")
        out.append("%s%s" % (op.attrs.get("name"), [qc.attrs["qubits"].index(q) if q in qc.attrs["qubits"] else "?" for q in ins.attrs.get("qubits", [])]))
    return " ".join(out)


def embed(f, env, syms, pos, n):
    return O.embed(f(*[O.num(s, env) for s in syms]), pos, n)


def method(ctx, nm, nq, npar, f):
    where = fn_loc(ctx, "qrisp.circuit", "QuantumCircuit")
    for pos in ([2, 0][:nq], [0, 1][:nq]) if nq == 2 else ([1],):
        syms = psyms(npar)

        def body(w):
            if not has_method(w, nm):
                return None
            qc = new_circuit(w, 3)
            q = wires(w, qc)
            meth(w, qc, nm, *syms, *[q[i] for i in pos])
            return qc
        outs, _ = run_paths(ctx, body, syms)
        for o in outs:
            judge(ctx, "method", "QuantumCircuit.%s on %s" % (nm, pos), o, syms, lambda env: embed(f, env, syms, pos, 3), where, 3)
    # index form and list form
    syms = psyms(npar)
    lists = [[0, 2], [1, 3]] if nq == 2 else [[0, 2]]

    def body2(w):
        if not has_method(w, nm):
            return None
        qc = new_circuit(w, 4)
        q = wires(w, qc)
        meth(w, qc, nm, *syms, *[[q[i] for i in l] for l in lists])
        return qc

    def ref(env):
        U = f(*[O.num(s, env) for s in syms])
        return O.embed(U, [l[1] for l in lists], 4) @ O.embed(U, [l[0] for l in lists], 4)
    outs, _ = run_paths(ctx, body2, syms, limit=24)
    for o in outs:
        judge(ctx, "broadcast", "QuantumCircuit.%s on lists" % nm, o, syms, ref, where, 4)


def holder(w, traced, n):
    qc = new_circuit(w, n)
    if not traced:
        real = w.getattr(qc, "append")
        qc.attrs["append"] = HostFn(lambda w2, a, k, node: w2.call(real, list(a), {x: y for x, y in k.items() if x != "param_tracers"}, node), "append")
    else:
        log = []

        def rec(w2, a, k, node):
            names = ["operation", "qubits", "clbits", "param_tracers"]
            d = dict(zip(names, a))
            d.update(k)
            log.append(d)
            return None
        qc.attrs["append"] = HostFn(rec, "append")
        qc.attrs["__log__"] = log
    return qc


GREEK = "alpha beta gamma delta epsilon zeta eta theta".split()


def function(ctx, nm, nq, npar, f, traced):
    if ctx.prog.resolve(GAF, nm) is None:
        return
    where = fn_loc(ctx, GAF, nm)
    rid = "traced" if traced else "function"
    for pos in ([2, 0], [0, 1]) if nq == 2 else ([1],):
        syms = psyms(npar)
        box = {}

        def body(w):
            qc = holder(w, traced, 3)
            q = wires(w, qc)
            w.fmodels["find_qs"] = lambda *a: qc
            meth_args = list(syms) + [q[i] for i in pos]
            w.call(w.lookup(GAF, nm), meth_args, {}, None)
            return qc
        outs, _ = run_paths(ctx, body, syms, models={"check_for_tracing_mode": const(traced)})
        key = "%s%s on %s" % (nm, " (traced)" if traced else "", pos)
        for o in outs:
            if traced and o.kind == "ok":
                judge_trace(ctx, key, o, syms, lambda env: embed(f, env, syms, pos, 3), where)
            else:
                judge(ctx, rid, key, o, syms, lambda env: embed(f, env, syms, pos, 3), where, 3)


def judge_trace(ctx, key, o, syms, ref, where):
    qc = o.value
    log = qc.attrs["__log__"]
    pts = points(o, syms)
    seen = False
    for env in pts:
        M = np.eye(8, dtype=complex)
        full = dict(env)
        for d in log:
            full.update({GREEK[i]: O.num(t, env) for i, t in enumerate(d.get("param_tracers") or [])})
        if not O.cond_holds(o.conds, full):
            continue
        seen = True
        try:
            for d in log:
                tr = d.get("param_tracers") or []
                sub = {GREEK[i]: O.num(t, env) for i, t in enumerate(tr)}
                qs = [qc.attrs["qubits"].index(q) for q in d["qubits"]]
                M = O.embed(O.op_matrix(d["operation"], sub), qs, 3) @ M
        except O.Undenotable as e:
            ctx.unresolved("traced", key, e)
            return
        except (KeyError, ValueError, TypeError) as e:
            ctx.violate("traced", key, where, "traced parameters do not cover the gate's parameters (%r)" % e)
            return
        if not O.equal(M, ref(env)):
            ctx.violate("traced", key, where, "traced gates do not amount to %s at %s" % (key, env))
            return
    if seen:
        ctx.ok("traced", key)


def mc(ctx):
    qcls = "QuantumCircuit"
    sy = psyms(1)
    jobs = []
    for n in (1, 2, 3):
        sts = [format(i, "0%db" % n) for i in range(2 ** n)]
        forms = [(-1, "1" * n)] + [(s, s) for s in sts] + [(i, "".join(str((i >> b) & 1) for b in range(n))) for i in range(2 ** n)]
        for given, bits in forms:
            jobs.append(("mcx", n, given, bits))
            jobs.append(("mcz", n, given, bits))
            jobs.append(("mcp", n, given, bits))
            if n <= 2:
                jobs.append(("QuantumCircuit.mcx", n, given, bits))
    for kind, n, given, bits in jobs:
        key = "%s(%d, ctrl_state=%r)" % (kind, n, given)
        syms = sy if kind == "mcp" else []

        def body(w):
            tot = n + 1
            qc = holder(w, False, tot)
            q = wires(w, qc)
            w.fmodels["find_qs"] = lambda *a: qc
            if kind == "QuantumCircuit.mcx":
                qc = new_circuit(w, tot)
                q = wires(w, qc)
                meth(w, qc, "mcx", q[:n], q[n], ctrl_state=given)
            elif kind == "mcx":
                w.call(w.lookup(GAF, "mcx"), [q[:n], q[n]], {"ctrl_state": given, "method": "gray" if n == 3 else "auto"}, None)
            elif kind == "mcz":
                w.call(w.lookup(GAF, "mcz"), [q[:n]], {"ctrl_state": given}, None)
            else:
                w.call(w.lookup(GAF, "mcp"), [sy[0], q[:n]], {"ctrl_state": given, "method": "gray"}, None)
            return qc

        def ref(env):
            if kind.endswith("mcx"):
                return O.ctrl(O.X, n, bits)
            d = np.ones(2 ** n, dtype=complex)
            d[int(bits, 2)] = -1 if kind == "mcz" else np.exp(1j * O.num(sy[0], env))
            return np.kron(np.diag(d), np.eye(2))
        outs, _ = run_paths(ctx, body, syms, limit=16)
        name = kind.split(".")[-1]
        where = fn_loc(ctx, GAF, name) if "." not in kind else fn_loc(ctx, "qrisp.circuit", qcls)
        for o in outs:
            if kind == "mcp" and n == 1 and o.kind == "raise":
                ctx.unresolved("mc", key, "single qubit")
                continue
            judge(ctx, "mc", key, o, syms, ref, where, n + 1)


def unitaries(ctx):
    for lab, U in U_SAMPLES.items():
        for kind in ("method", "function"):
            key = "unitary[%s] %s" % (lab, kind)

            def body(w):
                qc = holder(w, False, 1)
                q = wires(w, qc)
                w.fmodels["find_qs"] = lambda *a: qc
                if kind == "method":
                    meth(w, qc, "unitary", U.copy(), q[0])
                else:
                    w.call(w.lookup(GAF, "unitary"), [U.copy(), q[0]], {}, None)
                return qc
            outs, _ = run_paths(ctx, body)
            for o in outs:
                judge(ctx, "unitary", key, o, [], lambda env: U, fn_loc(ctx, GAF, "unitary"), 1)


def measures(ctx):
    def body(w):
        qc = new_circuit(w, 3, 2)
        q = wires(w, qc)
        c = list(w.getattr(qc, "clbits"))
        meth(w, qc, "measure", q[2], c[1])
        meth(w, qc, "measure", [q[0], q[1]], [c[1], c[0]])
        meth(w, qc, "measure", q[1])
        meth(w, qc, "reset", q[0])
        meth(w, qc, "barrier", [q[0], q[2]])
        return [(i.attrs["op"].attrs["name"], [q.index(x) for x in i.attrs["qubits"]],
                 [w.getattr(qc, "clbits").index(x) for x in i.attrs["clbits"]]) for i in w.getattr(qc, "data")]
    want = [("measure", [2], [1]), ("measure", [0], [1]), ("measure", [1], [0]), ("measure", [1], [2]), ("reset", [0], []), ("barrier", [0, 2], [])]
    outs, _ = run_paths(ctx, body)
    cmp_list(ctx, outs, want, "circuit measure/reset", fn_loc(ctx, "qrisp.circuit", "QuantumCircuit"))

    def body2(w):
        qc = holder(w, False, 3)
        q = wires(w, qc)
        w.fmodels["find_qs"] = lambda *a: qc
        w.call(w.lookup(GAF, "measure"), [q[1]], {}, None)
        w.call(w.lookup(GAF, "measure"), [[q[2], q[0]]], {}, None)
        w.call(w.lookup(GAF, "reset"), [q[2]], {}, None)
        w.call(w.lookup(GAF, "barrier"), [[q[2], q[1]]], {}, None)
        w.call(w.lookup(GAF, "barrier"), [q[1]], {}, None)
        return [(i.attrs["op"].attrs["name"], [q.index(x) for x in i.attrs["qubits"]],
                 [w.getattr(qc, "clbits").index(x) for x in i.attrs["clbits"]]) for i in w.getattr(qc, "data")]
    want = [("measure", [1], [0]), ("measure", [2], [1]), ("measure", [0], [2]), ("reset", [2], []), ("barrier", [2, 1], []), ("barrier", [1], [])]
    outs, _ = run_paths(ctx, body2)
    cmp_list(ctx, outs, want, "measure/reset functions", fn_loc(ctx, GAF, "measure"))


def cmp_list(ctx, outs, want, key, where):
    for o in outs:
        if o.kind == "raise":
            ctx.violate("measure", key, where, "raises %r" % o.value.exc)
        elif o.kind != "ok":
            ctx.unresolved("measure", key, o.value)
        elif o.value != want:
            for g, x in zip(o.value, want):
                if g != x:
                    ctx.violate("measure", key + ":" + x[0], where, "recorded %r instead of %r" % (g, x))
                    break
            else:
                ctx.violate("measure", key, where, "recorded %d instructions instead of %d" % (len(o.value), len(want)))
        else:
            for x in want:
                ctx.ok("measure", key + ":" + x[0])
