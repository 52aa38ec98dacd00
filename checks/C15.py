"""Blocks under control, inversion, conjugation and condition act as the controlled, adjoint and conjugated block."""
import itertools

import numpy as np

from .common import *
from sa import channel as CH
from sa.models import decorators, ARGSPEC
from .C06 import order_of

SHARED = True

DECOR = decorators("custom_control", "custom_inversion", "gate_wrap", "quantum_condition", "lifted", "auto_uncompute", "adaptive_condition")

N = 4
P = psyms(1)
NUM = {"h": O.H, "x": O.X, "y": O.Y, "z": O.Z, "s": O.phase(np.pi / 2), "t": O.phase(np.pi / 4)}
ROT = {"ry": lambda a: O.rot(O.Y, a), "rx": lambda a: O.rot(O.X, a), "rz": lambda a: O.rot(O.Z, a), "p": O.phase, "gphase": lambda a: np.exp(1j * a) * O.I2}
CX = O.ctrl(O.X)
SWAP = np.eye(4)[[0, 2, 1, 3]]


def on(U, qs, n=N):
    T = np.eye(2 ** n, dtype=complex).reshape([2] * n + [2 ** n])
    return CH._apply(T, U, list(qs)).reshape(2 ** n, 2 ** n)


def controlled(M, qs, st, n=N):
    """M where the qubits qs hold the string st, identity elsewhere. M must not act on qs."""
    D = np.zeros(2 ** n)
    for v in range(2 ** n):
        b = format(v, "0%db" % n)
        if all(b[q] == c for q, c in zip(qs, st)):
            D[v] = 1
    return np.diag(D) @ M + np.diag(1 - D)


def num(x, env):
    return O.num(x, env)


def meaning(prog, env, n=N):
    M = np.eye(2 ** n, dtype=complex)
    for st in prog:
        M = one(st, env, n) @ M
    return M


def ctrl_string(qs, kw):
    s = kw.get("ctrl_state", -1)
    if isinstance(s, int):
        s = "1" * len(qs) if s == -1 else "".join(str((s >> i) & 1) for i in range(len(qs)))
    return s


def one(st, env, n):
    k = st[0]
    if k in NUM:
        return on(NUM[k], [st[1]], n)
    if k in ROT:
        return on(ROT[k](num(st[1], env)), [st[2]], n)
    if k == "cx":
        return on(CX, st[1:], n)
    if k == "cz":
        return on(O.ctrl(O.Z), st[1:], n)
    if k == "cp":
        return on(O.ctrl(O.phase(num(st[1], env))), st[2:], n)
    if k == "swap":
        return on(SWAP, st[1:], n)
    if k == "custom":
        return meaning([("cx", st[2], st[3]), ("ry", st[1], st[3]), ("cx", st[2], st[3])], env, n)
    if k == "custom_gates":
        return meaning([("cx", st[2], st[3]), ("p", st[1], st[3])], env, n)
    if k == "wrapped":
        return meaning([("ry", st[1], st[2]), ("cx", st[2], st[3])], env, n)
    if k == "ctrl":
        M = meaning(st[3], env, n)
        s = ctrl_string(st[1], st[2])
        if st[2].get("invert"):
            # acts where the controls do not hold the state
            return _off(M, st[1], s, n)
        return controlled(M, st[1], s, n)
    if k == "inv":
        return meaning(st[1], env, n).conj().T
    if k in ("env", "wrap"):
        return meaning(st[1], env, n)
    if k == "conj":
        U = on(ROT["ry"](num(st[1], env)), [st[2]], n)
        return U.conj().T @ meaning(st[3], env, n) @ U
    if k == "conj2":
        U = meaning([("rx", st[1], st[2]), ("cx", st[2], st[3])], env, n)
        return U.conj().T @ meaning(st[4], env, n) @ U
    if k == "cond":
        return controlled(meaning(st[2], env, n), [st[1]], "1", n)
    if k == "cond2":
        return controlled(meaning(st[4], env, n), [st[1], st[2]], "11" if st[3] else "01", n)
    if k == "iter":
        return np.linalg.matrix_power(meaning(st[3], env, n), st[1])
    if k == "temp":
        return controlled(meaning(st[2], env, n), [st[1]], "1", n)
    raise KeyError(k)


def _off(M, qs, st, n):
    D = np.ones(2 ** n)
    for v in range(2 ** n):
        b = format(v, "0%db" % n)
        if all(b[q] == c for q, c in zip(qs, st)):
            D[v] = 0
    return np.diag(D) @ M + np.diag(1 - D)


def text(prog):
    def t(x):
        k = x[0]
        rest = []
        body = ""
        for a in x[1:]:
            if isinstance(a, list) and a and isinstance(a[0], tuple):
                body = " {%s}" % text(a)
            elif isinstance(a, dict):
                rest += ["%s=%s" % i for i in sorted(a.items())]
            else:
                rest.append(str(a))
        return k + ("(%s)" % ",".join(rest) if rest else "") + body
    return "; ".join(t(x) for x in prog)


# wrapper name -> (controls it needs, builder(controls, body))
WRAP = {
    "ctrl1": (1, lambda c, b: ("ctrl", c, {}, b)),
    "ctrl0": (1, lambda c, b: ("ctrl", c, {"ctrl_state": "0"}, b)),
    "ctrlnot": (1, lambda c, b: ("ctrl", c, {"invert": True}, b)),
    "ctrl01": (2, lambda c, b: ("ctrl", c, {"ctrl_state": "01"}, b)),
    "ctrlint": (2, lambda c, b: ("ctrl", c, {"ctrl_state": 1}, b)),
    "inv": (0, lambda c, b: ("inv", b)),
    "env": (0, lambda c, b: ("env", b)),
    "wrap": (0, lambda c, b: ("wrap", b)),
    "conj": (0, lambda c, b: ("conj", 0.4, 2, b)),
    "conj2": (0, lambda c, b: ("conj2", P[0], 2, 3, b)),
    "iter": (0, lambda c, b: ("iter", 2, False, b)),
    "cond": (1, lambda c, b: ("cond", c[0], b)),
    "cond2": (2, lambda c, b: ("cond2", c[0], c[1], False, b)),
    "temp": (1, lambda c, b: ("temp", c[0], b)),
}
CORE = [
    [("ry", P[0], 2), ("cx", 2, 3), ("t", 3)],
    [("custom", P[0], 3, 2), ("h", 3)],
    [("wrapped", 0.7, 2, 3), ("custom_gates", P[0], 2, 3), ("gphase", 0.3, 2)],
]


def nests(depth):
    for ws in itertools.product(WRAP, repeat=depth):
        # an iteration refuses blocks that create variables
        if "iter" in ws and any(w in ws[ws.index("iter"):] for w in ("ctrl01", "ctrlint", "cond", "cond2", "temp")):
            continue
        if sum(WRAP[w][0] for w in ws) <= 2:
            yield ws


def program(ws, core, level=0, used=0):
    """Each block carries a gate before and after the block inside of it."""
    if not ws:
        return list(CORE[core])
    k, mk = WRAP[ws[0]]
    inner = program(ws[1:], core, level + 1, used + k)
    if ws[1:]:
        inner = [("s", 2)] + inner + [("ry", 0.25 + level, 3)]
    b = mk(list(range(used, used + k)), inner)
    return [("h", 2), b, ("rx", 0.6, 3)] if level == 0 else [b]


def run(ctx):
    ctx.prog.add_stubs("client", "networkx")
    ctx.rule("single", "a block under one environment denotes the operator the environment promises", 10)
    ctx.rule("nested", "blocks nested in two environments denote the composition of what both promise", 40)
    ctx.rule("deep", "blocks nested in three environments denote the composition of what they promise", 20)
    for d, rid in ((1, "single"), (2, "nested"), (3, "deep")):
        for ws in nests(d):
            if d == 3 and hash_of(ws) % 5:
                continue
            for c in range(len(CORE)) if d < 3 else (hash_of(ws) // 5 % 3,):
                decide(ctx, rid, ">".join(ws) + " core %d" % c, program(ws, c))


def hash_of(ws):
    return sum((7 * i + 1) * ord(ch) for i, w in enumerate(ws) for ch in w)


def decide(ctx, rid, key, prog):
    if not ctx.mine():
        return
    where = "qrisp.environments: " + key

    def body(w):
        w.run_module(ctx.prog.modules["qrisp.alg_primitives.mcx_algs.circuit_library"])
        q, s = w.call(w.lookup("client.blocks", "main"), [N, prog], {}, None)
        return q, list(w.getattr(s, "data"))
    try:
        outs, complete = run_paths(ctx, body, P, limit=12, max_paths=24, models=DECOR, emodels=ARGSPEC)
    except Imprecise as e:
        ctx.unresolved(rid, key, e)
        return
    seen = False
    for o in outs:
        pts = points(o, P)
        if not pts:
            continue
        if o.kind == "raise":
            ctx.violate(rid, key, loc(o.value.node) if o.value.node is not None else where, "%s fails with %r" % (text(prog), o.value.exc))
            return
        if o.kind != "ok":
            ctx.unresolved(rid, key, o.value)
            return
        q, data = o.value
        order = order_of(q, data)
        ins = list(range(len(q)))
        for env in pts[:4]:
            try:
                R = meaning(prog, env)
                bs = CH.run(data, order, ins, list(range(2 ** N)), env)
            except O.Undenotable as e:
                ctx.unresolved(rid, key, e)
                return
            if any(b.dirty for b in bs):
                ctx.violate(rid, key, where, "%s returns an ancilla in a state other than zero" % text(prog))
                return
            for b in bs:
                M, leak = CH.columns(b, ins, len(order))
                if leak > 1e-6:
                    ctx.violate(rid, key, where, "%s leaves an ancilla in a state other than zero" % text(prog))
                    return
                if not O.equal(M, R, True, 1e-4):
                    ctx.violate(rid, key, where, "%s does not act as its blocks promise at %s" % (text(prog), env))
                    return
            seen = True
    if seen:
        ctx.ok(rid, key)
    else:
        ctx.unresolved(rid, key, "no partition reached")
