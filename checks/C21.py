"""Optimisation problems: operators, mixers and cost functions belong to the same problem."""
import itertools

import numpy as np

from .common import *
from sa import channel as CH
from sa.models import ARGSPEC, LOOPS, MACHINE
from .arith import DECOR

SHARED = True
NUMBA = {"numba.prange": lambda w, a, k, n: range(*a)}

CUT = "qrisp.algorithms.qaoa.problems.maxCut"
PROBLEMS = {"cut": CUT, "qubo": "qrisp.algorithms.qaoa.problems.QUBO", "parity": "qrisp.algorithms.qaoa.problems.eThrLinTwo", "sat": "qrisp.algorithms.qaoa.problems.maxSat",
            "independent": "qrisp.algorithms.qaoa.problems.maxIndepSet", "clique": "qrisp.algorithms.qaoa.problems.maxClique", "packing": "qrisp.algorithms.qaoa.problems.maxSetPacking",
            "cover": "qrisp.algorithms.qaoa.problems.minSetCover", "colour": "qrisp.algorithms.qaoa.problems.maxKColorableSubgraph"}


def run(ctx):
    ctx.prog.add_stubs("client", "networkx", "sympy")
    ctx.rule("phase", "the cost operator turns every solution by the angle times its cost", 10)
    ctx.rule("cost", "the cost function gives the expectation of the cost", 10)
    ctx.rule("mixer", "mixers move between the allowed solutions and no others", 8)
    ctx.rule("start", "the start is an allowed solution", 3)
    ctx.rule("reduce", "a reduction step keeps what is compatible with the chosen part", 4)
    instances(ctx)
    plain_mixers(ctx)
    colourings(ctx)
    reductions(ctx)


# evaluation

def module(ctx, mod):
    """Where a module is."""
    m = ctx.prog.modules.get(mod)
    return m.rel if m is not None and hasattr(m, "rel") else mod.replace(".", "/") + ".py"


def evaluate(ctx, rid, key, where, fn, args, matrix):
    """The value of client.optim.<fn>(*args), or its matrix; None when it is not decided or reported."""
    def body(w):
        r = w.call(w.lookup("client.optim", fn), list(args), {}, None)
        if not matrix:
            return r
        ins, outs, qvs = r
        sessions, data = [], []
        for q in list(qvs):
            qs = w.getattr(q, "qs")
            if not any(x is qs for x in sessions):
                sessions.append(qs)
                data.extend(w.getattr(qs, "data"))
        return list(ins), list(outs), data
    try:
        outs, complete = run_paths(ctx, body, (), max_paths=16, models=DECOR, emodels={**ARGSPEC, **LOOPS, **MACHINE, **NUMBA}, max_steps=8000000)
    except Imprecise as e:
        ctx.unresolved(rid, key, e)
        return None
    if len(outs) != 1:
        ctx.unresolved(rid, key, "%d paths" % len(outs))
        return None
    o = outs[0]
    if o.kind == "raise":
        ctx.violate(rid, key, loc(o.value.node) if o.value.node is not None else where, "fails with %r" % (o.value.exc,))
        return None
    if o.kind != "ok":
        ctx.unresolved(rid, key, o.value)
        return None
    if not matrix:
        return o.value
    ins, outq, data = o.value
    try:
        M = CH.matrix(data, ins, outq, list(range(2 ** len(ins))), {})
    except O.Undenotable as e:
        ctx.unresolved(rid, key, e)
        return None
    if isinstance(M, str):
        ctx.violate(rid, key, where, M)
        return None
    return M


def bits(v, n):
    return format(v, "0%db" % n)


def phases(ctx, rid, key, where, fn, args, n, cost, allowed, gamma):
    """The phases are an affine function of the cost, and grow with the angle."""
    if not ctx.mine():
        return
    rows = []
    for g in (gamma, 2 * gamma):
        M = evaluate(ctx, rid, key, where, fn, args + (g,) if fn != "cost_phase" else args[:3] + (g,) + args[3:], True)
        if M is None:
            return
        sel = [v for v in range(2 ** n) if allowed(bits(v, n))]
        d = np.diag(M)[sel]
        if np.abs(np.abs(d) - 1).max() > 1e-6 or np.abs(M[:, sel]).sum() - len(sel) > 1e-5:
            ctx.violate(rid, key, where, "changes solutions instead of giving them a phase")
            return
        ph = np.angle(d / d[0])
        c = np.array([cost(bits(v, n)) for v in sel], dtype=float)
        c = c - c[0]
        rows.append((sel, ph, c))
    sel, ph, c = rows[0]
    i = int(np.argmax(np.abs(c)))
    if c[i] == 0:
        ctx.ok(rid, key)
        return
    # the smallest difference gives the factor without ambiguity
    j = min((a for a in range(len(c)) if c[a] != 0), key=lambda a: abs(c[a]))
    k = ph[j] / c[j]
    for (sel, ph, c), f in zip(rows, (1, 2)):
        bad = np.abs(np.exp(1j * ph) - np.exp(1j * k * f * c))
        if abs(k) < 1e-9 or bad.max() > 1e-6:
            v = int(np.argmax(bad))
            ctx.violate(rid, key, where, "the solutions %s and %s differ by %g in cost but by %.4g in phase (%.4g for a cost of 1)" % (bits(sel[0], n), bits(sel[v], n), c[v], ph[v], k * f))
            return
    ctx.ok(rid, key)


# problem instances: kind, data, number of bits, cost of a solution, allowed solutions

def ones(s):
    return s.count("1")


def cut(data):
    return lambda s: -sum(s[a] != s[b] for a, b in data[1])


def qubo(Q):
    Q = np.array(Q)
    return lambda s: float(np.array([int(b) for b in s]) @ Q @ np.array([int(b) for b in s]))


def parity(clauses):
    return lambda s: -sum((int(s[a]) + int(s[b]) + int(s[c])) % 2 == v for a, b, c, v in clauses)


def sat(data):
    return lambda s: -sum(any((s[abs(l) - 1] == "1") == (l > 0) for l in cl) for cl in data[1])


def free(s):
    return True


def independent(data):
    return lambda s: not any(s[a] == s[b] == "1" for a, b in data[1])


def clique(data):
    es = {frozenset(e) for e in data[1]}
    return lambda s: all(frozenset((a, b)) in es for a, b in itertools.combinations([i for i, x in enumerate(s) if x == "1"], 2))


def packing(sets):
    return lambda s: not any(sets[a] & sets[b] for a, b in itertools.combinations([i for i, x in enumerate(s) if x == "1"], 2))


def cover(data):
    return lambda s: set().union(*[data[0][i] for i, x in enumerate(s) if x == "1"]) == data[1]


GRAPHS = ((2, ((0, 1),)), (3, ((0, 1), (1, 2))), (3, ((2, 0), (1, 2), (0, 1))), (4, ((0, 1), (1, 2), (2, 3), (3, 0))), (4, ((0, 3), (1, 3))), (4, ((0, 1), (1, 2), (0, 2), (3, 2))), (4, ()))
MATRICES = ([[1, 2], [0, -3]], [[0.5, -1, 0], [2, 1, 1], [0, -0.5, -1]], [[1, 0, 0], [0, 2, 0], [0, 0, 4]], [[-3, 1, 0, 2], [1, 0, 0, 0], [0, 1, 1, -1], [0, 0, 2, 1]])
CLAUSES = (((0, 1, 2, 1),), ((0, 1, 2, 0), (1, 2, 3, 1)), ((3, 1, 0, 1), (2, 0, 3, 1), (0, 1, 2, 0)))
FORMULAS = ([2, [[1, 2], [-1]]], [3, [[1, -2, 3], [-1, -3], [2]]], [3, [[-1, -2, -3]]], [4, [[1, 2, -3], [1, 4], [-2, -4], [3]]])
SETS = ([{0, 1}, {1, 2}, {3}], [{0, 7, 1}, {6, 5}, {2, 3}, {5, 4}], [{0}, {0}, {0, 1}], [{0, 1, 2}, {3}, {4}, {0, 3}])
COVERS = (([{0, 1}, {1, 2}, {0, 2}], {0, 1, 2}), ([{0, 1, 2}, {0}, {1, 2}], {0, 1, 2}), ([{0, 1}, {1}, {2}, {2, 0}], {0, 1, 2}))


def table():
    for g in GRAPHS:
        yield "cut", g, g[0], cut(g), free
        yield "independent", g, g[0], lambda s: -ones(s), independent(g)
        yield "clique", g, g[0], lambda s: -ones(s), clique(g)
    for q in MATRICES:
        yield "qubo", q, len(q), qubo(q), free
    for c in CLAUSES:
        yield "parity", c, 1 + max(max(k[:3]) for k in c), parity(c), free
    for f in FORMULAS:
        yield "sat", f, f[0], sat(f), free
    for s in SETS:
        yield "packing", s, len(s), lambda s: -ones(s), packing(s)
    for c in COVERS:
        yield "cover", c, len(c[0]), lambda s: ones(s), cover(c)


def show(data):
    return str(data).replace(" ", "")


def instances(ctx):
    for kind, data, n, cost, allowed in table():
        where = module(ctx, PROBLEMS[kind])
        key = "%s %s" % (kind, show(data))
        for form in ("variable",) + (("array",) if kind in ("cut", "qubo") and n < 4 else ()):
            phases(ctx, "phase", key + ("" if form == "variable" else " array"), where, "cost_phase", (kind, data, n, form), n, cost, allowed, 0.05)
        costs(ctx, kind, data, n, cost, allowed, key, where)
        if kind in ("independent", "clique", "packing", "cover"):
            mixing(ctx, "mixer", key, where, "mixed", (kind, data, n, 0.7), n, allowed)
            starting(ctx, key, where, "started", (kind, data, n), n, allowed)
    for g in GRAPHS:
        where = module(ctx, CUT)
        for v in range(2 ** g[0]):
            s = bits(v, g[0])
            value(ctx, "cost", "cut %s of %s" % (s, show(g)), where, "own_cost", ("cut", g, s), cut(g)(s))
        for samples in ((0, 1, 2), (3, 3, 1, 2)):
            # the first qubit is the least significant bit of a sample
            if g[1]:
                want = float(np.mean([cut(g)(bits(v % 2 ** g[0], g[0])[::-1]) for v in samples]))
                value(ctx, "cost", "samples %s of %s" % (show(samples), show(g)), where, "own_cost", ("samples", g, [v % 2 ** g[0] for v in samples]), want)
    for q in MATRICES:
        for v in range(2 ** len(q)):
            s = bits(v, len(q))
            value(ctx, "cost", "qubo %s of %s" % (s, show(q)), module(ctx, PROBLEMS["qubo"]), "own_cost", ("qubo", q, s), qubo(q)(s))


def weights(n):
    w = np.array([1.0 + (7 * v) % 5 for v in range(2 ** n)])
    return w / w.sum()


def costs(ctx, kind, data, n, cost, allowed, key, where):
    def total(s):
        if allowed(s) and (kind != "cover" or ones(s)):
            return cost(s)
        return len(data[0]) if kind == "cover" else 0
    dists = [{bits(v, n): 1.0} for v in range(2 ** n)] + [{bits(v, n): float(p) for v, p in enumerate(weights(n))}, {bits(0, n): 0.25, bits(2 ** n - 1, n): 0.75}]
    for d in dists:
        name = "distribution" if len(d) > 2 else "+".join("%s:%g" % x for x in d.items())
        want = sum(p * total(s) for s, p in d.items())
        value(ctx, "cost", "%s %s" % (key, name), where, "cost", (kind, data, d), want)
        if kind == "clique":
            value(ctx, "cost", "own %s %s" % (key, name), where, "own_cost", (kind, data, d), want)
        if kind == "cut" and len(d) > 1:
            value(ctx, "cost", "%s array %s" % (key, name), where, "cost", (kind, data, {tuple(s): p for s, p in d.items()}), want)


def value(ctx, rid, key, where, fn, args, want):
    if not ctx.mine():
        return
    r = evaluate(ctx, rid, key, where, fn, args, False)
    if r is None:
        return
    try:
        r = float(r)
    except (TypeError, ValueError):
        ctx.unresolved(rid, key, "cost %s" % (r,))
        return
    if abs(r - want) > 1e-9:
        ctx.violate(rid, key, where, "gives %g instead of %g" % (r, want))
        return
    ctx.ok(rid, key)


def mixing(ctx, rid, key, where, fn, args, n, allowed, flips=True):
    """Allowed solutions stay among the allowed ones, and allowed changes of one bit take place."""
    if not ctx.mine():
        return
    M = evaluate(ctx, rid, key, where, fn, args, True)
    if M is None:
        return
    for v in range(2 ** n):
        s = bits(v, n)
        if not allowed(s):
            continue
        for u in range(2 ** n):
            t = bits(u, n)
            if not allowed(t) and abs(M[u, v]) > 1e-6:
                ctx.violate(rid, key, where, "takes the allowed solution %s to %s, which is not allowed" % (s, t))
                return
            if flips and allowed(t) and ones(bits(u ^ v, n)) == 1 and abs(M[u, v]) < 1e-6:
                ctx.violate(rid, key, where, "does not take %s to %s, both of which are allowed" % (s, t))
                return
    ctx.ok(rid, key)


def starting(ctx, key, where, fn, args, n, allowed):
    if not ctx.mine():
        return
    M = evaluate(ctx, "start", key, where, fn, args, True)
    if M is None:
        return
    for v in range(2 ** n):
        if abs(M[v, 0]) > 1e-6 and not allowed(bits(v, n)):
            ctx.violate("start", key, where, "starts in %s, which is not allowed" % bits(v, n))
            return
    ctx.ok("start", key)


def same(ctx, rid, key, where, fn, args, want):
    if not ctx.mine():
        return
    M = evaluate(ctx, rid, key, where, fn, args, True)
    if M is None:
        return
    if M.shape != want.shape or not O.equal(M, want, upto_phase=True):
        ctx.violate(rid, key, where, "acts as a different operator")
        return
    ctx.ok(rid, key)


def every(U, n, skip=()):
    M = np.eye(1)
    for i in range(n):
        M = np.kron(M, np.eye(2) if i in skip else U)
    return M


def about(psi, phase):
    return np.eye(len(psi)) + (np.exp(1j * phase) - 1) * np.outer(psi, psi.conj())


def plain_mixers(ctx):
    mod = "qrisp.algorithms.qaoa.mixers"
    for n in (1, 2, 3):
        for b in (0.7, -1.3):
            for kind, U in (("RX_mixer", O.rot(O.X, 2 * b)), ("RY_mixer", O.rot(O.Y, 2 * b)), ("RZ_mixer", O.rot(O.Z, -b))):
                same(ctx, "mixer", "%s %d %g" % (kind, n, b), fn_loc(ctx, mod, kind), "mixer", (kind, n, b), every(U, n))
            same(ctx, "mixer", "grover_mixer %d %g" % (n, b), fn_loc(ctx, mod, "grover_mixer"), "mixer", ("grover_mixer", n, b), about(np.ones(2 ** n) / np.sqrt(2 ** n), b))
    for n in (2, 3, 4, 5):
        for k in range(n + 1):
            mixing(ctx, "mixer", "XY_mixer %d of weight %d" % (n, k), fn_loc(ctx, mod, "XY_mixer"), "mixer", ("XY_mixer", n, 0.3), n, lambda s: ones(s) == k)
        couples(ctx, "XY_mixer %d neighbours" % n, fn_loc(ctx, mod, "XY_mixer"), n)
    for n in (2, 3, 4):
        for kind, ok in (("differ", lambda s: s[0] != s[-1]), ("both", lambda s: s[:2] == "11")):
            for b in (0.7, np.pi):
                psi = np.array([ok(bits(v, n)) for v in range(2 ** n)], dtype=float)
                same(ctx, "mixer", "constrained %s %d %.3g" % (kind, n, b), fn_loc(ctx, mod, "constrained_mixer_gen"), "constrained", (kind, n, b), about(psi / np.linalg.norm(psi), b))


def couples(ctx, key, where, n):
    if not ctx.mine():
        return
    M = evaluate(ctx, "mixer", key, where, "mixer", ("XY_mixer", n, 0.3), True)
    if M is None:
        return
    for i in range(n):
        a, b = 1 << i, 1 << (i + 1) % n
        if abs(M[a, b]) < 1e-6 and abs(M[b, a]) < 1e-6:
            ctx.violate("mixer", key, where, "does not exchange neighbouring qubits")
            return
    ctx.ok("mixer", key)


def colourings(ctx):
    where = module(ctx, PROBLEMS["colour"])
    for g in ((2, ((0, 1),)), (3, ((0, 1), (1, 2))), (3, ((0, 2), (1, 2), (0, 1)))):
        for colours, hot in ((2, True), (3, True), (2, False), (3, False), (4, False)):
            size = colours if hot else max(1, int(np.ceil(np.log2(colours))))
            n = size * g[0]
            if n > 8:
                continue

            def split(s):
                return [s[i * size:(i + 1) * size] for i in range(g[0])]

            def valid(s):
                return not hot or all(ones(c) == 1 for c in split(s))

            def cost(s):
                c = split(s)
                return sum(c[a] == c[b] for a, b in g[1])
            phases(ctx, "phase", "colour %s %d %s" % (show(g), colours, hot), where, "coloured", (g, colours, hot), n, cost, valid, 0.05)
    for g in GRAPHS[:3]:
        for col in (("a", "b", "a", "c"), ("a", "a", "a", "a"), ("a", "b", "c", "d")):
            k = tuple(col[:g[0]])
            ok = sum(k[a] != k[b] for a, b in g[1])
            value(ctx, "cost", "colour %s %s" % (show(g), "".join(k)), where, "cost", ("colour", g, {k: 0.5}), -0.5 * 4 ** ok)


def reductions(ctx):
    mod = "qrisp.algorithms.qiro.qiro_mixers"
    for n, fixed, excluded in ((2, (), ()), (3, (1,), ()), (3, (0,), (2,)), (4, (3,), (0, 1))):
        skip = set(fixed) | set(excluded)
        for kind, U in (("rx", O.rot(O.X, 1.4)), ("rz", O.rot(O.Z, 1.4))):
            same(ctx, "reduce", "%s mixer %d %s %s" % (kind, n, fixed, excluded), fn_loc(ctx, mod, "qiro_%s_mixer" % kind), "reduced_mixer", (kind, None, n, fixed, excluded, 0.7), every(U, n, skip))
        plus = np.array([0 if any(s[i] != "1" for i in fixed) or any(s[i] == "1" for i in excluded) else 1 for s in (bits(v, n) for v in range(2 ** n))], dtype=complex)
        same(ctx, "reduce", "start %d %s %s" % (n, fixed, excluded), fn_loc(ctx, mod, "qiro_init_function"), "reduced_start", ("general", n, fixed, excluded), (plus / np.linalg.norm(plus)).reshape(-1, 1))
        one = np.array([all((s[i] == "1") == (i in fixed) for i in range(n)) for s in (bits(v, n) for v in range(2 ** n))], dtype=complex)
        same(ctx, "reduce", "set start %d %s %s" % (n, fixed, excluded), module(ctx, mod), "reduced_start", ("independent", n, fixed, excluded), one.reshape(-1, 1))
    for f in FORMULAS:
        phases(ctx, "reduce", "sat %s" % show(f), module(ctx, "qrisp.algorithms.qiro.qiroproblems.qiroMaxSat"), "reduced_phase", ("sat", f, f[0], ()), f[0], sat(f), free, 0.05)
    for g in GRAPHS:
        n = g[0]
        adj = {i: {b for e in g[1] for a, b in (e, e[::-1]) if a == i} for i in range(n)}
        for kind in ("independent", "clique"):
            where = module(ctx, "qrisp.algorithms.qiro.qiroproblems.%s" % ("qiroMaxIndepSet" if kind == "independent" else "qiroMaxClique"))
            for i in range(n):
                for one in (True, False):
                    d = spread(n, {i: "1" if one else "0"}, None)
                    if kind == "independent":
                        out = adj[i] if one else {i}
                    else:
                        out = set(range(n)) - adj[i] - {i} if one else {i}
                    step(ctx, "%s %s node %d %s" % (kind, show(g), i, "in" if one else "out"), where, kind, g, d, set(range(n)) - out, {i} if one else set(), out)
            for a, b in g[1]:
                for equal in (True, False):
                    d = spread(n, {}, (a, b, equal))
                    chosen = set()
                    if kind == "independent":
                        out = {a, b} if equal else adj[a] & adj[b]
                    elif equal:
                        out, chosen = set(range(n)) - (adj[a] & adj[b]) - {a, b}, {a, b}
                    else:
                        out = set(range(n)) - adj[a] - adj[b] - {a, b}
                    step(ctx, "%s %s edge %d %d %s" % (kind, show(g), a, b, "equal" if equal else "opposite"), where, kind, g, d, set(range(n)) - out, chosen, out)


def spread(n, fixed, pair):
    """The uniform distribution, except for the given bits."""
    sel = [s for s in (bits(v, n) for v in range(2 ** n)) if all(s[i] == x for i, x in fixed.items()) and (pair is None or (s[pair[0]] == s[pair[1]]) == pair[2])]
    return {s: 1 / len(sel) for s in sel}


def step(ctx, key, where, kind, g, d, rest, chosen, out):
    if not ctx.mine():
        return
    r = evaluate(ctx, "reduce", key, where, "reduced", (kind, g, d), False)
    if r is None:
        return
    try:
        got = [sorted(int(x) for x in part) for part in r]
    except (TypeError, ValueError):
        ctx.unresolved("reduce", key, "result %s" % (r,))
        return
    for what, a, b in zip(("keeps", "chooses", "excludes"), got, (rest, chosen, out)):
        if set(a) != b:
            ctx.violate("reduce", key, where, "%s %s instead of %s" % (what, sorted(set(a)), sorted(b)))
            return
    ctx.ok("reduce", key)
