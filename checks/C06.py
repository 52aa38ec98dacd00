"""Multi-controlled X, Z and phase functions: every synthesis method and control state."""
import itertools

import numpy as np

from .common import *
from sa import channel as CH

SHARED = True

MOD = "qrisp.core.gate_application_functions"


def states(n, full):
    if n <= full:
        return ["".join(s) for s in itertools.product("01", repeat=n)]
    alt = "".join("01"[i % 2] for i in range(n))
    return ["1" * n, "0" + "1" * (n - 1), "1" * (n - 1) + "0", alt]


def jobs():
    out = []
    for m, ns in (("gray", (1, 2, 3, 4)), ("auto", (1, 2, 3)), ("balauca", (1, 2, 3, 4, 5)), ("yong", (2, 3, 4, 5)), ("hybrid", (2, 3, 4, 5)),
                  ("maslov", (1, 2, 3, 4)), ("amy", (2,)), ("jones", (2,)), ("gidney", (2,)), ("gidney_inv", (2,)), ("khattar", (1, 2, 3, 4, 5))):
        for n in ns:
            for st in states(n, 3):
                for k in ((1, 2, 3) if m == "hybrid" and n > 3 else (1,)):
                    out.append(("mcx", m, n, st, k))
    for n in (4, 5, 6):
        for st in ("1" * n, "01" + "1" * (n - 2)):
            for k in (2, 3):
                out.append(("mcx", "balauca_dirty", n, st, k))
    for m, ns in (("gray", (1, 2, 3)), ("auto", (2, 3)), ("balauca", (2, 3, 4, 5)), ("yong", (3, 4))):
        for n in ns:
            for st in states(n, 2):
                out.append(("mcz", m, n, st, 1))
    for m, ns in (("gray", (1, 2, 3)), ("auto", (2, 3, 4)), ("balauca", (1, 2, 3, 4)), ("khattar", (1, 2, 3, 4, 5))):
        for n in ns:
            for st in states(n, 2):
                out.append(("mcp", m, n, st, 1))
    return out


def run(ctx):
    ctx.rule("mcx", "mcx flips its target exactly when the controls hold the requested state, for every method", 20)
    ctx.rule("mcz", "mcz flips the sign exactly of the requested state, for every method", 5)
    ctx.rule("mcp", "mcp applies the phase exactly to the requested state, for every method", 5)
    ctx.rule("ancilla", "every ancilla allocated on the way is back in the zero state when it is returned", 20)
    ctx.rule("int-state", "an integer control state means the string of its binary digits, lowest digit first", 4)
    ctx.rule("compiled", "the compiled forms of the logical AND and of the Jones Toffoli implement what they replace", 4)
    ctx.rule("refuse", "a control state of the wrong length or an unknown method is refused", 2)
    for j in jobs():
        one(ctx, *j)
    for n in (2, 3):
        for v in range(2 ** n):
            one(ctx, "mcx", "gray", n, v, 1, rid="int-state")
            one(ctx, "mcz", "gray", n, v, 1, rid="int-state")
            one(ctx, "mcp", "gray", n, v, 1, rid="int-state")
    compiled(ctx)
    refuse(ctx)


def target_matrix(fn, n, st, phi):
    if isinstance(st, int):
        st = "".join(str((st >> i) & 1) for i in range(n))
    if fn == "mcx":
        return O.ctrl(O.X, n, st)
    D = np.ones(2 ** n, dtype=complex)
    D[int(st, 2)] = -1 if fn == "mcz" else np.exp(1j * phi)
    return np.diag(D)


def setup(w, n, target):
    qv = construct(w, "QuantumVariable", [n])
    qs = [meth(w, qv, "__getitem__", i) for i in range(n)]
    if not target:
        return qs, None, qv
    qb = construct(w, "QuantumBool", [], {"qs": w.getattr(qv, "qs")})
    return qs, meth(w, qb, "__getitem__", 0), qv


def one(ctx, fn, method, n, st, k, rid=None):
    if not ctx.mine():
        return
    rid = rid or fn
    key = "%s(n=%d, method=%s, ctrl_state=%r%s)" % (fn, n, method, st, ", num_ancilla=%d" % k if k != 1 else "")
    where = fn_loc(ctx, MOD, fn)
    syms = psyms(1) if fn == "mcp" else []

    def body(w):
        qs, t, qv = setup(w, n, fn == "mcx")
        f = w.lookup(MOD, fn)
        if fn == "mcx":
            w.call(f, [list(qs), t], {"method": method, "ctrl_state": st, "num_ancilla": k}, None)
        elif fn == "mcz":
            w.call(f, [list(qs)], {"method": method, "ctrl_state": st}, None)
        else:
            w.call(f, [syms[0], list(qs)], {"method": method, "ctrl_state": st}, None)
        s = w.getattr(qv, "qs")
        return qs + ([t] if t is not None else []), list(w.getattr(s, "data"))
    outs, complete = run_paths(ctx, body, syms, limit=20, max_paths=24, max_steps=2000000)
    for o in outs:
        pts = points(o, syms)
        if not pts:
            continue
        if o.kind == "raise":
            ctx.violate(rid, key, loc(o.value.node) if o.value.node is not None else where, "fails with %r" % (o.value.exc,))
            continue
        if o.kind != "ok":
            ctx.unresolved(rid, key, o.value)
            continue
        ins, data = o.value
        judge(ctx, rid, key, where, ins, data, pts[:6], lambda env: target_matrix(fn, n, st, env.get("p0")), method, n, st)


def order_of(ins, data):
    order = list(ins)
    for i in data:
        for q in i.attrs["qubits"]:
            if not any(q is x for x in order):
                order.append(q)
    return order


def judge(ctx, rid, key, where, ins, data, pts, ref, method, n, st):
    order = order_of(ins, data)
    inputs = list(range(len(ins)))
    N = 2 ** len(ins)
    cols = list(range(N))
    if method == "gidney":
        cols = [c for c in cols if not c & 1]
    elif method == "gidney_inv":
        cols = [c for c in cols if (c & 1) == int(format(c >> 1, "0%db" % n) == st)]
    for env in pts:
        try:
            R = ref(env)[:, cols]
            bs = CH.run(data, order, inputs, cols, env)
        except O.Undenotable as e:
            ctx.unresolved(rid, key, e)
            return
        if any(b.dirty for b in bs):
            ctx.violate("ancilla", key, where, "an ancilla is returned in a state other than zero")
            return
        tot = 0.0
        for b in bs:
            M, leak = CH.columns(b, inputs, len(order))
            if leak > 1e-6:
                ctx.violate("ancilla", key, where, "an ancilla is left in a state other than zero")
                return
            w = CH.norm(M) / np.sqrt(len(cols))
            tot += w * w
            if not O.equal(M / w, R, True, 1e-4):
                ctx.violate(rid, key, where, "does not implement the requested operation%s" % (" at %s" % env if env else ""))
                return
        if abs(tot - 1) > 1e-4:
            ctx.violate(rid, key, where, "outcome probabilities depend on the input")
            return
    ctx.ok("ancilla", key)
    ctx.ok(rid, key)


def compiled(ctx):
    gm = "qrisp.alg_primitives.mcx_algs.gidney"
    jm = "qrisp.alg_primitives.mcx_algs.jones"
    for st in ("11", "01", "10", "00"):
        for cls, mod, inv, args, flip in (("GidneyLogicalAND", gm, False, ["gidney"], 0), ("GidneyLogicalAND", gm, False, ["margolus"], 0),
                                          ("GidneyLogicalAND", gm, True, [], 0), ("JonesToffoli", jm, None, [], 0), ("JonesToffoli", jm, None, [], 1),
                                          ("JonesToffoli", jm, None, [], 2), ("GidneyLogicalAND", gm, True, [], 1),
                                          ("GidneyLogicalAND", gm, False, ["gidney"], 1), ("GidneyLogicalAND", gm, False, ["margolus"], 2)):
            key = "%s(%s, ctrl_state=%s)%s.recompile(%s)" % (cls, "inverse" if inv else "", st, ".inverse()" * flip, ", ".join(args))
            where = fn_loc(ctx, mod, cls)
            if not ctx.mine():
                continue

            def body(w):
                kw = {"ctrl_state": st}
                if inv is not None:
                    kw["inv"] = inv if flip != 1 else not inv
                op = construct(w, cls, [], kw, mod=mod)
                for _ in range(flip):
                    op = meth(w, op, "inverse")
                op = meth(w, op, "recompile", *args)
                nq = 5 if cls == "JonesToffoli" else 3
                qc = new_circuit(w, nq, op.attrs["num_clbits"])
                meth(w, qc, "append", op, list(w.getattr(qc, "qubits")), list(w.getattr(qc, "clbits")))
                return list(qc.attrs["qubits"])[:3], list(qc.attrs["data"])
            outs, _ = run_paths(ctx, body)
            for o in outs:
                if o.kind == "raise":
                    ctx.violate("compiled", key, where, "fails with %r" % (o.value.exc,))
                elif o.kind != "ok":
                    ctx.unresolved("compiled", key, o.value)
                else:
                    m = "gidney_inv" if inv else ("gidney" if cls == "GidneyLogicalAND" else "jones")
                    judge(ctx, "compiled", key, where, o.value[0], o.value[1], [{}], lambda env: target_matrix("mcx", 2, st, None), m, 2, st)


def refuse(ctx):
    if not ctx.mine():
        return
    for fn, kw in (("mcx", {"method": "gray", "ctrl_state": "101"}), ("mcx", {"method": "balauca", "ctrl_state": "0"}),
                   ("mcx", {"method": "no such method"}), ("mcp", {"method": "no such method"}), ("mcx", {"method": "gray", "ctrl_state": 9})):
        key = "%s on 2 controls with %s" % (fn, kw)

        def body(w):
            qs, t, qv = setup(w, 2, True)
            w.call(w.lookup(MOD, fn), [list(qs), t] if fn == "mcx" else [0.3, list(qs)], dict(kw), None)
        outs, _ = run_paths(ctx, body)
        for o in outs:
            if o.kind == "raise":
                ctx.ok("refuse", key)
            elif o.kind == "ok":
                ctx.violate("refuse", key, fn_loc(ctx, MOD, fn), "accepted")
            else:
                ctx.unresolved("refuse", key, o.value)
