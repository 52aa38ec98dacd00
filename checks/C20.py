"""Building blocks of algorithms act as the operator they are named after."""
import itertools

import numpy as np

from .common import *
from sa import channel as CH
from sa.models import decorators, ARGSPEC, LOOPS, MACHINE
from .arith import DECOR, Kind, Fraction, show

SHARED = True

H, X, Z = O.H, O.X, O.Z
RY = lambda a: O.rot(O.Y, a)
RZ = lambda a: O.rot(O.Z, a)
P = O.phase


def kron(*ms):
    M = np.eye(1)
    for m in ms:
        M = np.kron(M, m)
    return M


def under(mode, U):
    """The matrix with the control as the most significant qubit, if any."""
    I = np.eye(len(U))
    O_ = np.zeros_like(U)
    if mode == "control":
        return np.block([[I, O_], [O_, U]])
    if mode == "control0":
        return np.block([[U, O_], [O_, I]])
    if mode == "invert":
        return U.conj().T
    return U


def decide(ctx, rid, key, where, fn, args, want, exact=False, refused=False, tolerant=False, max_steps=8000000):
    """Evaluate client.prims.<fn>(*args) and compare the matrix it applies with want (columns: inputs)."""
    if not ctx.mine():
        return

    def body(w):
        for m in ("qrisp.alg_primitives.mcx_algs.circuit_library", "qrisp.alg_primitives.arithmetic.adders.ripple_carry_adder"):
            if m in w.prog.modules:
                w.run_module(w.prog.modules[m])
        ins, outs, qvs = w.call(w.lookup("client.prims", fn), list(args), {}, None)
        sessions, data = [], []
        for q in list(qvs):
            qs = w.getattr(q, "qs")
            if not any(x is qs for x in sessions):
                sessions.append(qs)
                data.extend(w.getattr(qs, "data"))
        return list(ins), list(outs), data
    try:
        outs, complete = run_paths(ctx, body, (), max_paths=16, models=DECOR, emodels={**ARGSPEC, **LOOPS, **MACHINE}, max_steps=max_steps)
    except Imprecise as e:
        ctx.unresolved(rid, key, e)
        return
    for o in outs:
        if o.kind == "raise":
            if refused:
                continue
            ctx.violate(rid, key, loc(o.value.node) if o.value.node is not None else where, "fails with %r" % (o.value.exc,))
            return
        if o.kind != "ok":
            ctx.unresolved(rid, key, o.value)
            return
        if refused:
            ctx.violate(rid, key, where, "is accepted")
            return
        ins, outq, data = o.value
        W = want() if callable(want) else want
        if W.shape != (2 ** len(outq), 2 ** len(ins)):
            ctx.violate(rid, key, where, "takes %d and gives %d qubits" % (len(ins), len(outq)))
            return
        sel = list(range(W.shape[1]))
        if len(sel) > 64:
            sel = sorted({0, len(sel) - 1, *[(i * 2654435761 + 12345) % len(sel) for i in range(60)]})
        try:
            M = CH.matrix(data, ins, outq, sel, {})
        except O.Undenotable as e:
            ctx.unresolved(rid, key, e)
            return
        if isinstance(M, str):
            ctx.violate(rid, key, where, M)
            return
        if tolerant:
            M, W = np.abs(M), np.abs(W)
        if not O.equal(M, W[:, sel], upto_phase=not exact):
            ctx.violate(rid, key, where, "acts as a different operator (%s)" % difference(M, W[:, sel], sel, len(ins), len(outq)))
            return
    ctx.ok(rid, key)


def difference(M, W, sel, n, m):
    i = np.unravel_index(np.argmax(np.abs(W)), W.shape)
    ph = M[i] / W[i] if abs(M[i]) > 1e-9 else 1
    D = np.abs(M - W * ph / (abs(ph) or 1))
    c = int(np.argmax(D.max(axis=0)))
    r = int(np.argmax(D[:, c]))
    return "|%s> to |%s>: %.4g%+.4gi instead of %.4g%+.4gi" % (format(sel[c], "0%db" % n), format(r, "0%db" % m), M[r, c].real, M[r, c].imag, W[r, c].real, W[r, c].imag)


# references

def dft(n, mult=1, swap=True, little=True):
    N = 2 ** n
    k = np.arange(N)
    F = np.exp(2j * np.pi * mult * np.outer(k, k) / N) / np.sqrt(N)
    R = np.eye(N)[[int(format(v, "0%db" % n)[::-1], 2) for v in range(N)]]
    if not swap:
        F = R @ F
    if not little:
        F = R @ F @ R
    return F


def case(i):
    T, S = P(np.pi / 4), P(np.pi / 2)
    return [X, RY(0.7), H @ P(0.4), Z, H, S @ RY(-0.3), T, T @ X][i]


def select(n, k, operands=1):
    blocks = []
    for i in range(2 ** n):
        U = case(i) if i < k else np.eye(2)
        if operands == 2:
            U = np.kron(U, case(7 - i) if i < k else np.eye(2))
        blocks.append(U)
    d = len(blocks[0])
    M = np.zeros((d * 2 ** n,) * 2, dtype=complex)
    for i, U in enumerate(blocks):
        M[i * d:(i + 1) * d, i * d:(i + 1) * d] = U
    return M


def mapping(n_in, n_out, f):
    M = np.zeros((2 ** n_out, 2 ** n_in))
    for v in range(2 ** n_in):
        b = [(v >> (n_in - 1 - i)) & 1 for i in range(n_in)]
        r = f(b)
        assert len(r) == n_out, (len(r), n_out)
        M[int("".join(map(str, r)), 2), v] = 1
    return M


def number(bits):
    v = 0
    for b in bits:
        v = 2 * v + b
    return v


def route(what, n, size):
    K = 2 ** n
    zero = [0] * size

    def ents(b):
        return [b[n + size * i:n + size * (i + 1)] for i in range(K)]
    if what in ("demux", "demux qubit", "demux array"):
        def f(b):
            i, a = number(b[:n]), b[n:]
            return b[:n] + sum([a if j == i else zero for j in range(K)], [])
        return mapping(n + size, n + K * size, f)
    if what in ("read", "read env"):
        return mapping(n + K * size, n + K * size + size, lambda b: b + ents(b)[number(b[:n])])
    if what == "write env":
        def f(b):
            e = ents(b)
            i = number(b[:n])
            e[i] = [1 - y for y in e[i]]
            return b[:n] + sum(e, [])
        return mapping(n + K * size, n + K * size, f)
    if what == "swap":
        def f(b):
            e, q = ents(b[:-size]), b[-size:]
            i = number(b[:n])
            e[i], q = q, e[i]
            return b[:n] + sum(e, []) + q
        return mapping(n + K * size + size, n + K * size + size, f)
    raise KeyError(what)


def rotated(bits, k):
    """Every element moves k places to the right."""
    N = len(bits)
    return [bits[(i - k) % N] for i in range(N)]


def about(psi, phase, sign=-1):
    psi = np.asarray(psi, dtype=complex).reshape(-1, 1)
    return sign * (np.eye(len(psi)) + (np.exp(1j * phase) - 1) * psi @ psi.conj().T)


CX = O.ctrl(X)


def prepared(second):
    """The operator of client.prims.prepared on two qubits."""
    a = kron(RY(0.8), np.eye(2))
    if second == "other":
        return kron(np.eye(2), P(0.3) @ RY(0.5)) @ CX @ a
    return kron(np.eye(2), P(0.3) @ H) @ CX @ a


def run(ctx):
    ctx.prog.add_stubs("client", "networkx", "sympy")
    ctx.rule("fourier", "the Fourier transform is the discrete Fourier transform of the register, with every option", 10)
    ctx.rule("switch", "a switch applies the case that the index holds and nothing beyond the last case", 10)
    ctx.rule("route", "demultiplexing and quantum indexing reach the element that the index holds", 5)
    ctx.rule("shift", "shifts and permutations move the elements to their places", 10)
    ctx.rule("reflect", "reflections and amplification steps are the reflections about the given state", 5)
    ctx.rule("estimate", "phase estimation gives the amplitudes of the phase of every eigenstate", 3)
    ctx.rule("phase", "phase functions and tags put the phase of every value on that value", 10)
    ctx.rule("table", "dictionaries and truth tables give the value of the key", 5)
    ctx.rule("state", "prepared states have the given amplitudes", 5)
    ctx.rule("combine", "linear combinations of unitaries apply the combination where the index is zero", 2)
    fouriers(ctx)
    switches(ctx)
    routes(ctx)
    shifts(ctx)
    reflections(ctx)
    estimates(ctx)
    phases(ctx)
    tables(ctx)
    states(ctx)
    combinations(ctx)


def name(args):
    return " ".join(str(x) if not isinstance(x, dict) else ",".join("%s=%s" % i for i in sorted(x.items())) or "-" for x in args)


def fouriers(ctx):
    where = fn_loc(ctx, "qrisp.alg_primitives.qft", "QFT")
    F = "qrisp.alg_primitives.qft"
    jobs = []
    for n in (1, 2, 3, 4):
        for opts in ({}, {"exec_swap": False}, {"qiskit_endian": False}, {"inplace_mult": 3}, {"use_gms": True}, {"inv": True},
                     {"inv": True, "exec_swap": False}, {"inplace_mult": -1, "exec_swap": False}, {"exec_swap": False, "qiskit_endian": False}):
            jobs.append((n, opts, "variable", ""))
    for n in (1, 2, 3):
        for mode in ("control", "control0", "invert"):
            jobs.append((n, {}, "variable", mode))
            jobs.append((n, {"inv": True}, "variable", mode))
        for form in ("list", "float", "signed"):
            jobs.append((n, {}, form, ""))
    for n in (1, 2, 3):
        for a in ("gidney", "cuccaro"):
            jobs.append((n, {"inpl_adder": a}, "variable", ""))
            jobs.append((n, {"inpl_adder": a, "inv": True, "exec_swap": False}, "variable", ""))
            jobs.append((n, {"inpl_adder": a, "inplace_mult": 2 ** n + 1}, "variable", ""))
    for n, opts, form, mode in jobs:
        size = n + (form == "signed")
        U = dft(size, opts.get("inplace_mult", 1), opts.get("exec_swap", True), opts.get("qiskit_endian", True))
        if opts.get("inv"):
            U = U.conj().T
        decide(ctx, "fourier", name((n, opts, form, mode)), where, "fourier", (n, opts, form, mode), under(mode, U), exact=True)
    decide(ctx, "fourier", "factor with adder", where, "fourier", (3, {"inplace_mult": 3, "inpl_adder": "gidney"}, "variable", ""), None, refused=True)
    decide(ctx, "fourier", "even factor", where, "fourier", (3, {"inplace_mult": 2}, "variable", ""), None, refused=True)


def switches(ctx):
    where = fn_loc(ctx, "qrisp.alg_primitives.program_control.quantum_switch", "_q_switch_q")
    for method in ("auto", "tree", "sequential", "parallel"):
        for n, ks in ((1, (None, 1, 2)), (2, (None, 1, 2, 3)), (3, (None, 3, 5, 6, 7))):
            if method == "parallel" and n > 2:
                continue
            for k in ks:
                for form in ("function", "list"):
                    for mode in ("", "control", "control0", "invert"):
                        if mode and k is not None and k != 3:
                            continue
                        if method == "auto" and (mode or n > 2):
                            continue
                        args = (n, k, method, form, "variable", mode, 1)
                        U = select(n, 2 ** n if k is None else k)
                        decide(ctx, "switch", name(args), where, "switched", args, under(mode, U))
    for method in ("tree", "sequential"):
        for k in (None, 3):
            for form in ("function", "list"):
                args = (2, k, method, form, "qubits", "", 1)
                decide(ctx, "switch", name(args), where, "switched", args, select(2, k or 4))
                args = (2, k, method, form, "variable", "", 2)
                decide(ctx, "switch", name(args), where, "switched", args, select(2, k or 4, 2))
    where = fn_loc(ctx, "qrisp.alg_primitives.program_control.switch_case", "qswitch")
    for method in ("auto", "tree", "sequential", "parallel"):
        for k in (None, 3):
            for form in ("function", "list"):
                for mode in ("", "control", "invert"):
                    args = (2, k, method, form, mode)
                    decide(ctx, "switch", "old " + name(args), where, "switched_old", args, under(mode, select(2, k or 4)))


def routes(ctx):
    where = fn_loc(ctx, "qrisp.alg_primitives.iterable_processing", "demux")
    for what in ("demux", "demux array", "demux qubit"):
        for n, size in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)):
            if what == "demux qubit" and size != 1:
                continue
            for opts in ({}, {"parallelize_qc": True}, {"ctrl_method": "gray"}):
                args = (what, n, size, opts)
                decide(ctx, "route", name(args), where, "routed", args, lambda: route(what, n, size))
    for what in ("read", "read env", "write env", "swap"):
        for n, size in ((1, 1), (1, 2), (2, 1)):
            args = (what, n, size, {})
            decide(ctx, "route", name(args), where, "routed", args, lambda: route(what, n, size))


def shifts(ctx):
    where = fn_loc(ctx, "qrisp.alg_primitives.iterable_processing", "cyclic_shift")
    for N in (1, 2, 3, 4, 5, 6, 7):
        for k in range(-3, N + 2):
            if N > 4 and k in (-3, 0, N + 1):
                continue
            for form in ("variable", "list", "array"):
                if form != "list" and N not in (2, 3, 5):
                    continue
                args = (N, k, form, "")
                decide(ctx, "shift", name(args), where, "shifted", args, mapping(N, N, lambda b: rotated(b, k)), exact=True)
    for N, k in ((3, 1), (4, 2), (5, 3), (4, -1)):
        for mode in ("control", "control0", "invert"):
            args = (N, k, "variable", mode)
            decide(ctx, "shift", name(args), where, "shifted", args, under(mode, mapping(N, N, lambda b: rotated(b, k))), exact=True)
    for N, spec in ((3, (1, 0, False)), (3, (2, 0, False)), (4, (2, 0, False)), (5, (2, 0, False)), (4, (1, 1, False)), (3, (1, 0, True)), (4, (2, 0, True)), (5, (1, 0, True))):
        size = spec[0] + spec[2]

        def f(b):
            v = number(b[:size])
            if spec[2] and v >> (size - 1):
                v -= 1 << size
            return b[:size] + rotated(b[size:], v * 2 ** spec[1])
        args = (N, spec, "variable", "")
        decide(ctx, "shift", "%d by %s" % (N, show(spec)), where, "shifted", args, mapping(N + size, N + size, f), exact=True)
    where = fn_loc(ctx, "qrisp.alg_primitives.iterable_processing", "permute_iterable")
    for N in (1, 2, 3, 4):
        for perm in itertools.permutations(range(N)):
            for form in ("variable", "list"):
                if form == "variable" and N != 3:
                    continue
                decide(ctx, "shift", "permutation %s %s" % (list(perm), form), where, "permuted", (perm, form, ""),
                       mapping(N, N, lambda b: [b[perm[i]] for i in range(N)]), exact=True)


def reflections(ctx):
    where = fn_loc(ctx, "qrisp.alg_primitives.reflection", "reflection")
    e = lambda n: np.eye(2 ** n)[:, 0]
    states = {"zero": e(2), "one": e(1), "state": prepared("same")[:, 0], "args": (RZ(0.6) @ RY(0.9))[:, 0], "pair": prepared("other")[:, 0]}
    for form in states:
        for opts in ({}, {"phase": 0.7}, {"phase": -np.pi / 2}):
            for mode in ("", "control", "invert"):
                U = about(states[form], opts.get("phase", np.pi))
                decide(ctx, "reflect", name((form, {k: round(v, 3) for k, v in opts.items()}, mode)), where, "reflected", (form, opts, mode), under(mode, U), exact=True)
    V = prepared("other")
    for i in (0, 1):
        for opts in ({"reflection_indices": [i]}, {"reflection_indices": [i], "phase": 0.7}):
            U = about(e(1), opts.get("phase", np.pi))
            U = V @ (kron(U, np.eye(2)) if i == 0 else kron(np.eye(2), U)) @ V.conj().T
            decide(ctx, "reflect", name(("pair", opts, "")), where, "reflected", ("pair", opts, ""), U, exact=True)
    where = fn_loc(ctx, "qrisp.alg_primitives.amplitude_amplification", "amplitude_amplification")
    for k in (0, 1, 2, 3):
        for mode in ("", "control", "invert"):
            for form in ("one", "pair", "options"):
                psi = states["state" if form == "one" else "pair"]
                oracle = kron(Z, np.eye(2)) if form == "one" else O.ctrl(P(np.pi if form == "pair" else 0.7))
                G = np.linalg.matrix_power(about(psi, np.pi) @ oracle, k)
                decide(ctx, "reflect", name(("amplify", form, k, mode)), where, "amplified", (form, k, mode), under(mode, G), exact=True)


def estimates(ctx):
    where = fn_loc(ctx, "qrisp.alg_primitives.qpe", "QPE")
    for phases in ((0.9,), (np.pi / 2, np.pi / 4), (2 * np.pi / 3, -1.1)):
        for prec, opts in ((1, {}), (2, {}), (3, {}), (2, {"iter_spec": True}), (3, {"iter_spec": True}), (2, {"ctrl_method": "gray"}), (None, {"target": (3, 0, False)}),
                           (2, {"kwargs": {"scale": 0.5}}), (2, {"iter_spec": True, "kwargs": {"scale": 0.5}})):
            n = prec or 3
            scale = opts.get("kwargs", {}).get("scale", 1)
            K, m = 2 ** n, len(phases)
            W = np.zeros((K * 2 ** m, 2 ** m), dtype=complex)
            for v in range(2 ** m):
                th = sum(ph for i, ph in enumerate(phases) if v >> (m - 1 - i) & 1) * scale
                for y in range(K):
                    W[y * 2 ** m + v, v] = sum(np.exp(1j * k * (th - 2 * np.pi * y / K)) for k in range(K)) / K
            args = (list(phases), prec, opts, "")
            decide(ctx, "estimate", name((["%.3g" % x for x in phases], prec, opts)), where, "estimated", args, W, exact=True)
    decide(ctx, "estimate", "without precision", where, "estimated", ([0.9], None, {}, ""), None, refused=True)
    for prec in (1, 2, 3):
        for form in ("one", "pair", "options", "target"):
            K = 2 ** prec
            psi = (prepared("same") if form == "one" else prepared("other"))[:, 0]
            oracle = kron(Z, np.eye(2)) if form == "one" else O.ctrl(P(0.7 if form == "options" else np.pi))
            G = about(psi, np.pi) @ oracle
            S = np.concatenate([np.linalg.matrix_power(G, k) @ psi for k in range(K)]) / np.sqrt(K)
            W = kron(dft(prec).conj().T, np.eye(4)) @ S.reshape(-1, 1)
            decide(ctx, "estimate", name(("amplitude", form, prec)), fn_loc(ctx, "qrisp.alg_primitives.qae", "QAE"), "estimated_amplitude", (form, prec), W)


def kinds(operands):
    return [Kind(o[0] + o[2], o[1], o[2]) for o in operands]


def diagonal(operands, f):
    """exp(i f(values)) on the registers of the operands."""
    ks = kinds(operands)
    vals = itertools.product(*[[float(k.value(v)) for v in range(2 ** k.size)] for k in ks])
    return np.diag([np.exp(1j * f(*v)) for v in vals])


def poly(terms):
    def f(*xs):
        r = 0.0
        for c, es in terms:
            t = c
            for x, e in zip(xs, es):
                t *= x ** e
            r += t
        return r
    return f


U1, U2, U3, S1, S2, H2, E2 = (1, 0, False), (2, 0, False), (3, 0, False), (1, 0, True), (2, 0, True), (2, -1, False), (2, 1, False)


def phases(ctx):
    SB = "qrisp.alg_primitives.arithmetic.SBP_arithmetic"
    where = fn_loc(ctx, SB, "app_phase_polynomial")
    for operands, terms in (((U2,), ((0.7, (1,)),)), ((U3,), ((0.3, (2,)), (-0.4, (1,)))), ((S2,), ((0.3, (2,)), (0.2, (1,)))), ((H2,), ((0.9, (1,)), (0.5, (3,)))),
                            ((U2, U1), ((0.4, (1, 1)), (0.3, (1, 0)))), ((S1, H2), ((0.4, (1, 2)), (0.3, (0, 1)))), ((E2, U1), ((0.11, (2, 1)), (0.3, (0, 1)))),
                            ((U1, U1, S1), ((0.4, (1, 1, 1)), (0.3, (0, 1, 1)), (0.2, (1, 0, 0))))):
        for opts in ({}, {"t": 0.5}, {"t": -1}):
            for mode in ("", "control", "invert"):
                if mode and opts:
                    continue
                U = diagonal(operands, lambda *x: opts.get("t", 1) * poly(terms)(*x))
                decide(ctx, "phase", "polynomial " + name((" ".join(map(show, operands)), terms, opts, mode)), where, "phased", (operands, terms, opts, mode), under(mode, U))
        if len(operands) == 2:
            decide(ctx, "phase", "polynomial " + name((" ".join(map(show, operands)), terms, "given symbols")), where, "phased", (operands, terms, {"symbol_list": "reversed"}, ""),
                   diagonal(operands, poly(terms)))
    where = fn_loc(ctx, SB, "app_sb_phase_polynomial")
    for size, terms in ((1, ((0.4, (1,)),)), (2, ((0.4, (1, 1)), (0.3, (0, 1)))), (3, ((0.7, (1, 1, 1)), (-0.3, (1, 0, 1)), (0.2, (0, 1, 0))))):
        for opts in ({}, {"t": 0.5}):
            for mode in ("", "control", "invert"):
                U = diagonal([U1] * size, lambda *x: opts.get("t", 1) * poly(terms)(*x))
                decide(ctx, "phase", "bits " + name((size, terms, opts, mode)), where, "bit_phased", (size, terms, opts, mode), under(mode, U))
    where = fn_loc(ctx, "qrisp.misc.utility", "app_phase_function")
    for operands in ((U2,), (S2,), (H2,), (U3,), (U1, U2), (H2, S1)):
        for co in ((0.7, 0.0), (0.4, 0.3)):
            for form in ("function", "hamiltonian") + (("method",) if len(operands) == 1 else ()):
                for mode in ("", "control", "invert"):
                    if mode and co[1] == 0:
                        continue
                    f = (lambda a: co[0] * a + co[1] * a * a) if len(operands) == 1 else (lambda a, b: co[0] * a + co[1] * a * b)
                    decide(ctx, "phase", "function " + name((" ".join(map(show, operands)), co, form, mode)), where, "phase_function", (operands, co, mode, form),
                           under(mode, diagonal(operands, f)))
    where = fn_loc(ctx, "qrisp.algorithms.grover.grover_tools", "tag_state")
    for operands, values in (((U2,), (2,)), ((U2,), (0,)), ((U2,), (3,)), ((S2,), (-3,)), ((H2,), (1.5,)), ((U1,), (1,)), ((U1,), (0,)), ((U2, U1), (1, 0)), ((S1, U2), (-1, 2)), ((U1, S1, U1), (1, -2, 0))):
        for opts in ({}, {"phase": 0.7}):
            for mode in ("", "control", "invert"):
                U = diagonal(operands, lambda *x: opts.get("phase", np.pi) * (x == values))
                decide(ctx, "phase", "tag " + name((" ".join(map(show, operands)), values, opts, mode)), where, "tagged", (operands, values, opts, mode), under(mode, U), exact=True)
    where = fn_loc(ctx, "qrisp.algorithms.grover.grover_tools", "diffuser")
    for operands in ((U1,), (U2,), (S2,), (U1, U2), (U1, U1, U1)):
        n = sum(k.size for k in kinds(operands))
        for opts in ({}, {"phase": 0.7}):
            for mode in ("", "control"):
                U = about(np.ones(2 ** n) / np.sqrt(2 ** n), opts.get("phase", np.pi))
                decide(ctx, "reflect", "diffuser " + name((" ".join(map(show, operands)), opts, mode)), where, "diffused", (operands, opts, mode), under(mode, U), exact=True)
    where = fn_loc(ctx, "qrisp.algorithms.grover.grover_tools", "grovers_alg")
    for operands, values in (((U2,), ((2,),)), ((U3,), ((5,),)), ((S2,), ((-3,), (1,))), ((U2, U1), ((3, 1),)), ((U2, H2), ((1, 0.5), (2, 1.5)))):
        ks = kinds(operands)
        vals = list(itertools.product(*[[float(k.value(v)) for v in range(2 ** k.size)] for k in ks]))
        win = np.array([any(tuple(map(float, w)) == v for w in values) for v in vals], dtype=float)
        s = np.ones(len(vals)) / np.sqrt(len(vals))
        G = about(s, np.pi) @ np.diag(1 - 2 * win)
        for opts in ({"iterations": 0}, {"iterations": 1}, {"iterations": 2}, {"exact": True, "winner_state_amount": len(values)}):
            if opts.get("exact"):
                W = win / np.sqrt(win.sum())
            else:
                W = np.linalg.matrix_power(G, opts["iterations"]) @ s
            decide(ctx, "reflect", "search " + name((" ".join(map(show, operands)), values, opts)), where, "searched", (operands, values, opts), W.reshape(-1, 1).astype(complex))


def tables(ctx):
    where = fn_loc(ctx, "qrisp.core.quantum_dictionary", "QuantumDictionary")
    cases = ((U2, U2, {0: 3, 1: 1, 2: 2, 3: 0}), (U2, U3, {0: 5, 2: 7}), (S1, U2, {-1: 1, -2: 2, 0: 3, 1: 0}), (H2, (2, -1, True), {0.5: -1, 1: 1.5, 1.5: 0.5}), (U3, U1, {i: i % 2 for i in range(8)}),
             (U1, S2, {0: -3, 1: 2}))
    for key, out, tab in cases:
        ka, ko = kinds([key, out])
        code = {ko.value(v): v for v in range(2 ** ko.size)}

        def f(b):
            v = code[Fraction(tab.get(float(ka.value(number(b))), 0))]
            return b + [v >> (ko.size - 1 - i) & 1 for i in range(ko.size)]
        W = mapping(ka.size, ka.size + ko.size, f)
        for form in ("load", "index", "target"):
            for opts in ({}, {"synth_method": "pprm"}):
                if opts and form == "index":
                    continue
                decide(ctx, "table", name((show(key), show(out), tab, opts, form)), where, "looked_up", (key, out, tab, opts, form), W)
    pair, out, tab = (U1, U2), U2, {(0, 0): 1, (1, 0): 2, (1, 3): 3, (0, 2): 1}

    def g(b):
        v = tab.get((b[0], number(b[1:])), 0)
        return b + [v >> 1, v & 1]
    for opts in ({}, {"synth_method": "pprm"}):
        decide(ctx, "table", name(("pair", opts)), where, "looked_up", (pair, out, tab, opts, "pair"), mapping(3, 5, g))
    where = fn_loc(ctx, "qrisp.alg_primitives.logic_synthesis.truth_tables", "TruthTable")
    for cols in (("01",), ("10",), ("0110",), ("0001",), ("1011", "0110"), ("01101001",), ("00010111", "11010010"), ("1000000000000001",)):
        n = len(cols[0]).bit_length() - 1

        def f(b):
            i = number(b[:n][::-1])  # the first qubit is the least significant one
            return b[:n] + [y ^ int(c[i]) for y, c in zip(b[n:], cols)]
        for method in ("gray_pt", "gray_pt_inv", "pprm_pt", "best"):
            decide(ctx, "table", "truth " + name((cols, method)), where, "tabled", (cols, method, ""), mapping(n + len(cols), n + len(cols), f), tolerant=True)
        for method in ("gray", "pprm"):
            for mode in ("", "control", "invert"):
                if mode and n > 2:
                    continue
                decide(ctx, "table", "truth " + name((cols, method, mode)), where, "tabled", (cols, method, mode), under(mode, mapping(n + len(cols), n + len(cols), f).astype(complex)))


def states(ctx):
    where = fn_loc(ctx, "qrisp.alg_primitives.dicke_state_prep", "dicke_state")
    for n in (2, 3, 4, 5):
        for k in range(1, n):
            W = np.array([bin(v).count("1") == k for v in range(2 ** n)], dtype=complex)
            for form in ("variable", "list"):
                decide(ctx, "state", name(("dicke", n, k, form)), where, "dicke", (n, k, form), (W / np.linalg.norm(W)).reshape(-1, 1))
    where = fn_loc(ctx, "qrisp.alg_primitives.unbalanced_w_state", "unbalanced_w_state")
    for amps in ((1,), (1, 1), (1, -2), (1j, 2, 3), (1, 0, 2j), (0, 0, 1, 1), (1, 2 - 1j, -3, 0)):
        W = np.zeros(2 ** len(amps), dtype=complex)
        for i, a in enumerate(amps):
            W[1 << (len(amps) - 1 - i)] = a
        for form in ("variable", "list"):
            decide(ctx, "state", name(("w", amps, form)), where, "w_state", (list(amps), form), (W / np.linalg.norm(W)).reshape(-1, 1))
    where = fn_loc(ctx, "qrisp.core.quantum_variable", "QuantumVariable")
    for spec in (U1, U2, U3):
        n = spec[0]
        for amps in ([1] * 2 ** n, list(range(1, 2 ** n + 1)), [0] * (2 ** n - 1) + [1], [(-1) ** i * (i + 1j) for i in range(2 ** n)]):
            W = np.array(amps, dtype=complex)
            W = (W / np.linalg.norm(W)).reshape(-1, 1)
            for form in ("array", "labels", "reversed"):
                R = W[[int(format(v, "0%db" % n)[::-1], 2) for v in range(2 ** n)]] if form == "reversed" else W
                decide(ctx, "state", name(("amplitudes", amps, form)), where, "initialised", (spec, amps, form), R)


def combinations(ctx):
    where = fn_loc(ctx, "qrisp.alg_primitives.lcu", "inner_LCU")
    for angles in ((0.8,), (0.8, 1.1)):
        n = len(angles)
        # the first qubit of the index is the least significant one
        V = kron(*[RY(a) for a in angles[::-1]])
        A = kron(V.conj().T, np.eye(2)) @ select(n, 2 ** n) @ kron(V, np.eye(2))
        for form in ("list", "function"):
            for oaa in (0, 1):
                R = -(np.eye(2 ** n) - 2 * np.outer(np.eye(2 ** n)[0], np.eye(2 ** n)[0]))
                tag = kron(-R, np.eye(2))
                G = A @ kron(R, np.eye(2)) @ A.conj().T @ tag
                W = (np.linalg.matrix_power(G, oaa) @ A)[:, :2]
                decide(ctx, "combine", name((angles, form, oaa)), where, "combined", (list(angles), form, oaa), W)
