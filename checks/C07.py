"""Circuit passes keep the meaning of the circuit."""
import math

import numpy as np

from sa import oracle as O
from checks import scen as S
from checks.common import construct, meth, run_paths, loc, fn_loc, Obj

SHARED = True

PASS = "qrisp.circuit.pass_management.passes."
# name -> (module, factory arguments or None, only for the zero state, only measured statistics)
PASSES = {
    "fuse_adjacents": ("fuse_adjacents", None, False),
    "combine_single_qubit_gates": ("combine_single_qubit_gates", None, False),
    "convert_to_cx": ("convert_to_cx", (), False),
    "convert_to_cz": ("convert_to_cz", (), False),
    "convert_to_prx": ("convert_to_prx", None, False),
    "decompose": ("decompose", (), False),
    "decompose(1)": ("decompose", (1,), False),
    "decompose(gphases)": ("decompose", (100, None, True), False),
    "gray_synth_toffoli": ("gray_synth_toffoli", None, False),
    "remove_barriers": ("remove_barriers", None, False),
    "commute_swaps": ("commute_swaps", None, False),
    "reverse_parallelize": ("reverse_parallelize", None, False),
    "arrange_swaps": ("arrange_swaps", None, True),
    "cancel_zero_controls": ("cancel_zero_controls", None, True),
    "resolve_swaps": ("resolve_swaps", None, True),
}
A = 0.7

ONE = ["x", "h", "s", "z", "sx", ("rx", A), ("ry", A), ("rz", A), ("p", A), ("rx", -A), ("ry", -A), ("rz", -A), ("p", -A), ("gphase", A),
       ("u3", 0.3, 0.8, -0.4), ("inv", ("s",)), ("rx", 2 * math.pi), ("rz", 2 * math.pi)]
TWO = ["swap", "cx", "cz", "cy", ("cp", A), ("cp", -A), ("rzz", A), ("rzz", -A), ("rxx", A), ("ctrl", "0", ("x",)), ("ctrl", "0", ("z",)),
       ("ctrl", "0", ("p", A)), ("ctrl", "0", ("y",)), ("ctrl", "1", ("h",)), ("ctrl", "1", ("rx", A)), ("ctrl", "1", ("x",), "gray_pt"), ("xxyy", A, 0.3)]
DEF = ("def", "foo", 2, 0, [("h", [0]), ("cx", [0, 1]), (("rz", A), [1]), (("p", 0.4), [1]), ("x", [0]), ("x", [0])])
DEF2 = ("def", "bar", 1, 0, [("s", [0]), (("rz", A), [0]), ("h", [0])])
MDEF = ("def", "mea", 1, 1, [("h", [0]), ("measure", [0], [0])])


def spec(x):
    return x if isinstance(x, tuple) else (x,)


def general():
    out = []
    for a in ONE:
        out.append((2, 0, [(a, [0]), ("cx", [0, 1]), (a, [1])]))
        out.append((2, 0, [(("ctrl", "0", spec(a)), [0, 1])]))
    for a in TWO:
        out.append((2, 0, [("h", [0]), (a, [1, 0]), ("h", [1])]))
        out.append((2, 0, [("x", [0]), (a, [0, 1]), ("z", [0]), ("x", [1])]))
        out.append((3, 0, [(("ctrl", "0", spec(a)), [0, 2, 1])]))
    for st in ("11", "01", "10", "00"):
        out.append((3, 0, [("h", [0]), (("ctrl", st, ("x",)), [2, 0, 1])]))
        out.append((3, 0, [(("ctrl", st, ("z",)), [1, 0, 2])]))
    for st in ("1", "0"):
        out.append((3, 0, [(("ctrl", st, DEF), [2, 0, 1]), ("x", [2])]))
        out.append((2, 0, [(("ctrl", st, DEF2), [1, 0])]))
        out.append((3, 0, [("h", [1]), (("ctrl", st, ("swap",)), [1, 0, 2]), ("x", [2])]))
    out.append((2, 0, [(DEF, [1, 0]), (("inv", DEF), [1, 0])]))
    out.append((2, 0, [(DEF, [1, 0]), (DEF, [0, 1])]))
    out.append((2, 0, [("h", [0]), ("barrier", [0, 1]), ("h", [0]), ("swap", [0, 1]), ("s", [0])]))
    out.append((3, 0, [("h", [0]), ("swap", [0, 1]), ("swap", [1, 2]), ("s", [2]), ("cx", [2, 1]), ("swap", [0, 2]), ("t", [2])]))
    for d in (DEF2, ("ctrl", "1", DEF2)):
        n = 1 if d is DEF2 else 2
        al = [("alloc", [i]) for i in range(n)]
        de = [("dealloc", [i]) for i in range(n)]
        out.append((n, 0, al + [(d, list(range(n))), ("h", [0])]))
        out.append((n, 0, al + [(d, list(range(n))), (("inv", d), list(range(n)))] + de))
        out.append((n, 0, [(d, list(range(n))), (("inv", d), list(range(n)))] + de + al + [("h", [0])] + [(d, list(range(n)))]))
    out.append((1, 0, [("reset", [0]), (DEF2, [0])]))
    out.append((1, 0, [(DEF2, [0]), ("reset", [0]), (DEF2, [0]), ("reset", [0]), ("reset", [0])]))
    return out


def pairs():
    out = []
    for i, a in enumerate(ONE):
        for b in ONE:
            out.append((1, 0, [(a, [0]), (b, [0])]))
    for a in TWO:
        for b in TWO:
            for qs in ([0, 1], [1, 0]):
                out.append((2, 0, [(a, [0, 1]), (b, qs)]))
    for a in TWO[:9]:
        out.append((2, 0, [("swap", [0, 1]), (a, [0, 1]), (a, [1, 0]), ("swap", [1, 0]), (a, [0, 1])]))
    return out


def swaps():
    out = []
    for a in ("x", "s", ("rz", A)):
        out.append((2, 0, [(a, [0]), ("h", [0]), ("swap", [0, 1])]))
        out.append((3, 0, [(a, [0]), ("h", [1]), ("swap", [0, 1]), (a, [1]), ("swap", [1, 2]), (a, [2])]))
        out.append((2, 0, [(a, [0]), ("cx", [0, 1]), ("h", [1]), ("swap", [0, 1]), ("h", [0])]))
    return out


def classical():
    out = [
        (2, 2, [("h", [0]), ("measure", [0], [1]), (("if", "1", ("x",)), [1], [1]), ("measure", [1], [0])]),
        (2, 2, [("h", [0]), ("measure", [0], [1]), (("if", "0", ("x",)), [1], [1]), (("if", "1", ("x",)), [1], [1]), ("x", [1])]),
        (3, 2, [("h", [0]), ("measure", [0], [0]), (("if", "1", ("x",)), [2], [0]), ("swap", [0, 1]), ("measure", [2], [1])]),
        (2, 1, [("h", [0]), ("measure", [0], [0]), ("reset", [0]), ("h", [0]), ("cx", [0, 1])]),
        (2, 2, [("h", [0]), ("measure", [0], [0]), ("h", [0]), ("measure", [0], [0]), (("if", "1", ("h",)), [1], [0]), (("if", "1", ("h",)), [1], [0])]),
        (2, 2, [("h", [0]), (("def", "mea", 1, 1, MDEF[4]), [0], [1]), (("if", "1", ("u3", 0.3, 0.8, -0.4)), [1], [1])]),
        (2, 1, [("h", [0]), ("measure", [0], [0]), (("if", "1", ("rz", A)), [1], [0]), ("h", [1]), (("if", "1", ("rx", A)), [1], [0])]),
        (3, 2, [("h", [0]), ("h", [1]), ("measure", [0], [0]), ("measure", [1], [1]), (("if", "10", ("x",)), [2], [0, 1])]),
        (3, 1, [("h", [0]), ("measure", [0], [0]), (("if", "1", ("cx",)), [1, 2], [0]), ("h", [1]), (("if", "1", ("swap",)), [1, 2], [0])]),
        (2, 1, [("h", [0]), ("h", [1]), ("swap", [0, 1]), ("measure", [0], [0]), ("swap", [0, 1]), ("h", [1])]),
        (2, 2, [("h", [0]), ("cx", [0, 1]), ("measure", [0], [0]), ("z", [0]), ("measure", [1], [1]), ("x", [1]), ("cx", [0, 1])]),
    ]
    return out


def zeros():
    """circuits of interest for the passes that assume all qubits start in zero"""
    out = []
    for a in TWO:
        out.append((2, 0, [(a, [0, 1]), ("h", [1]), (a, [0, 1]), (a, [1, 0])]))
        out.append((2, 0, [(("rz", A), [0]), (a, [0, 1]), ("x", [0]), (a, [0, 1])]))
        out.append((3, 0, [("h", [0]), ("swap", [0, 2]), (a, [0, 1]), (a, [2, 1]), (a, [2, 0])]))
    for st in ("11", "01", "10", "00"):
        out.append((3, 0, [("h", [0]), (("ctrl", st, ("x",)), [0, 1, 2]), (("ctrl", st, ("x",)), [1, 2, 0]), (("ctrl", st, ("z",)), [0, 1, 2])]))
    out.append((2, 1, [("h", [0]), ("measure", [0], [0]), (("if", "1", ("x",)), [1], [0]), ("cx", [1, 0])]))
    out.append((2, 1, [("h", [0]), ("reset", [1]), ("cx", [0, 1]), ("cx", [1, 0])]))
    out.append((3, 0, [("swap", [0, 1]), ("x", [0]), ("swap", [0, 1]), ("swap", [2, 0]), ("cx", [1, 2]), ("swap", [2, 0])]))
    return out


def measured():
    """circuits that end in measurements of all qubits, for passes that permute the qubits"""
    out = []
    M = [("measure", [i], [i]) for i in range(3)]
    out.append((3, 3, [(("ry", A), [0]), ("swap", [0, 1]), ("swap", [1, 2]), (("ry", 0.4), [2]), ("cx", [2, 1]), ("swap", [2, 0]), (("ry", 0.3), [1])] + M))
    out.append((3, 3, [(("ry", A), [0]), ("swap", [0, 1]), ("measure", [1], [0]), (("if", "1", ("x",)), [0], [0]), ("swap", [0, 2])] + M[1:]))
    out.append((3, 3, [(("ry", A), [0]), (("ry", 0.3), [1]), (("ctrl", "1", ("swap",)), [0, 1, 2]), ("swap", [0, 2]), (("ctrl", "01", ("x",)), [0, 1, 2])] + M))
    out.append((3, 3, [(("ry", A), [0]), ("swap", [0, 1]), ("reset", [1]), (("ry", 0.4), [0]), ("swap", [1, 2]), ("cx", [0, 1])] + M))
    return out


SETS = {"general": general, "pairs": pairs, "swaps": swaps, "classical": classical, "zeros": zeros, "measured": measured}
USE = {"fuse_adjacents": ("general", "pairs", "classical"), "arrange_swaps": ("zeros", "classical"), "cancel_zero_controls": ("zeros", "classical"),
       "resolve_swaps": ("measured",), "commute_swaps": ("general", "swaps", "classical", "measured"),
       "convert_to_prx": ("general", "classical"), "combine_single_qubit_gates": ("general", "classical", "swaps"), "reverse_parallelize": ("general", "swaps", "classical")}


def run(ctx):
    ctx.prog.add_stubs("networkx")
    ctx.rule("meaning", "the result of a pass describes the same measurement statistics and quantum state as its input", 100)
    ctx.rule("kept", "a pass leaves the circuit it is given as it was", 50)
    ctx.rule("layout", "the manual layout puts logical qubit i on the requested physical qubit", 3)
    ctx.rule("strict", "strict conversion leaves no other two qubit gate or refuses", 4)
    for name in PASSES:
        for s in USE.get(name, ("general", "classical")):
            for c in SETS[s]():
                one(ctx, name, c)
    layout(ctx)
    strict(ctx)


def layout(ctx):
    if not ctx.mine():
        return
    steps = [("h", [0]), ("cx", [0, 1]), ("s", [2]), ("cx", [1, 2])]
    where = fn_loc(ctx, PASS + "manual_layout", "manual_layout")
    for m in ([0, 1, 2], [2, 0, 1], [1, 2, 0], [4, 0, 2], [5, 1, 3]):
        key = "manual_layout(%r)" % (m,)

        def body(w):
            qc = S.circuit(w, 3, 0, steps)
            before = snap(qc)
            f = w.call(w.lookup(PASS + "manual_layout", "manual_layout"), [list(m)], {}, None)
            return qc, before, snap(qc), w.call(f, [qc], {}, None)
        outs, _ = run_paths(ctx, body, models=MODELS)
        for o in outs:
            if o.kind == "raise":
                ctx.violate("layout", key, where, "fails with %r" % (o.value.exc,))
                continue
            if o.kind != "ok":
                ctx.unresolved("layout", key, o.value)
                continue
            qc, before, after, res = o.value
            q1, q2 = list(qc.attrs["qubits"]), list(res.attrs["qubits"])
            pos = {id(q): i for i, q in enumerate(q2)}
            got = [pos.get(id(q)) for q in q1]
            ins = [[pos.get(id(q)) for q in i.attrs["qubits"]] for i in res.attrs["data"]]
            want = [[m[j] for j in s[1]] for s in steps]
            if before != after:
                ctx.violate("layout", key, where, "the input circuit is changed")
            elif len(q2) != max(m) + 1 or got != m or ins != want:
                ctx.violate("layout", key, where, "gates act on %r instead of %r" % (ins, want))
            else:
                ctx.ok("layout", key)
    for m in ([0, 1], [0, 0, 1], [-1, 0, 1], [0, 1, 2, 3]):
        key = "manual_layout(%r) on three qubits" % (m,)

        def body(w):
            qc = S.circuit(w, 3, 0, steps)
            return w.call(w.call(w.lookup(PASS + "manual_layout", "manual_layout"), [list(m)], {}, None), [qc], {}, None)
        outs, _ = run_paths(ctx, body, models=MODELS)
        for o in outs:
            if o.kind == "raise":
                ctx.ok("layout", key)
            elif o.kind == "ok":
                ctx.violate("layout", key, where, "accepted")
            else:
                ctx.unresolved("layout", key, o.value)


def strict(ctx):
    if not ctx.mine():
        return
    for name, keep in (("convert_to_cx", "cx"), ("convert_to_cz", "cz")):
        for a in TWO:
            key = "%s(strict) on %s" % (name, S.text([(a, [0, 1])]))
            where = fn_loc(ctx, PASS + name, name)

            def body(w):
                qc = S.circuit(w, 2, 0, [(a, [0, 1])])
                return w.call(w.call(w.lookup(PASS + name, name), [True], {}, None), [qc], {}, None)
            outs, _ = run_paths(ctx, body, models=MODELS)
            for o in outs:
                if o.kind == "raise":
                    ctx.ok("strict", key + " refused")
                elif o.kind != "ok":
                    ctx.unresolved("strict", key, o.value)
                elif all(len(i.attrs["qubits"]) == 1 or i.attrs["op"].attrs.get("name") == keep for i in o.value.attrs["data"]):
                    ctx.ok("strict", key)
                else:
                    ctx.violate("strict", key, where, "another two qubit gate is left")


def apply(w, name, qc):
    mod, args, zero = PASSES[name]
    f = w.lookup(PASS + mod, mod)
    if args is not None:
        f = w.call(f, list(args), {}, None)
    return w.call(f, [qc], {}, None)


def one(ctx, name, c):
    if not ctx.mine():
        return
    nq, nc, steps = c
    mod, args, zero = PASSES[name]
    key = "%s on [%s]" % (name, S.text(steps))
    where = fn_loc(ctx, PASS + mod, mod)

    def body(w):
        qc = S.circuit(w, nq, nc, steps)
        before = snap(qc)
        res = apply(w, name, qc)
        return qc, before, snap(qc), res
    outs, complete = run_paths(ctx, body, max_paths=8, models=MODELS)
    for o in outs:
        if o.kind == "raise" and name == "reverse_parallelize" and any(isinstance(x[0], tuple) and x[0][1] == "mea" for x in steps):
            ctx.ok("meaning", key + " refused")
            continue
        if o.kind == "raise":
            ctx.violate("meaning", key, loc(o.value.node) if o.value.node is not None else where, "fails with %r" % (o.value.exc,))
            continue
        if o.kind != "ok":
            ctx.unresolved("meaning", key, o.value)
            continue
        qc, before, after, res = o.value
        if before == after:
            ctx.ok("kept", key)
        else:
            ctx.violate("kept", key, where, "the input circuit is changed")
        try:
            order = list(qc.attrs["qubits"])
            cl = list(qc.attrs["clbits"])
            data1 = before[2]
            I1 = S.instrument(data1, order, cl, {}, zero)
            I2 = S.instrument(list(res.attrs["data"]), order, cl, {}, zero)
            if name == "resolve_swaps":
                I1, I2 = stats(I1), stats(I2)
        except O.Undenotable as e:
            ctx.unresolved("meaning", key, e)
            continue
        if name != "arrange_swaps" and allocs(data1) != allocs(res.attrs["data"]):
            ctx.violate("meaning", key, where, "the resulting circuit [%s] allocates or frees different qubits" % listing(res, order, cl))
        elif S.same_instrument(I1, I2):
            ctx.ok("meaning", key)
        else:
            ctx.violate("meaning", key, where, "the resulting circuit [%s] has a different meaning" % listing(res, order, cl))


def allocs(data):
    """allocations and deallocations at the level of the circuit itself, in order"""
    return [(i.attrs["op"].attrs.get("name"), id(i.attrs["qubits"][0])) for i in data if i.attrs["op"].attrs.get("name") in ("qb_alloc", "qb_dealloc")]


def stats(I):
    return {k: np.array([[np.trace(v)]]) for k, v in I.items()}


def listing(qc, order, cl):
    def q(x, l):
        for i, y in enumerate(l):
            if y is x:
                return str(i)
        return "?"
    return "; ".join("%s %s%s" % (i.attrs["op"].attrs.get("name"), ",".join(q(x, order) for x in i.attrs["qubits"]),
                                  "".join("->" + q(x, cl) for x in i.attrs["clbits"])) for i in qc.attrs["data"][:12] if isinstance(i, Obj))


def snap(qc):
    d = list(qc.attrs["data"])
    return (list(map(id, qc.attrs["qubits"])), list(map(id, qc.attrs["clbits"])), d,
            [(id(i.attrs["op"]), tuple(map(id, i.attrs["qubits"])), tuple(map(id, i.attrs["clbits"]))) for i in d])


MODELS = {"parallelize_qc": None}
