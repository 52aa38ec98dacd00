"""Arithmetic modulo a number gives the reduced result."""
import operator

from .arith import *
from .arith import decide as _decide

SHARED = True

QM = "qrisp.qtypes.quantum_modulus"
EXACT = {"+": operator.add, "-": operator.sub, "*": operator.mul}
COMPARE = {"<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
INPLACE = {"+=": operator.add, "-=": operator.sub, "*=": operator.mul}
NAMES = {"+": "__add__", "-": "__sub__", "*": "__mul__", "<": "__lt__", ">": "__gt__", "<=": "__le__", ">=": "__ge__", "==": "__eq__",
         "!=": "__ne__", "+=": "__iadd__", "-=": "__isub__", "*=": "__imul__"}


def M(n, m=None):
    return ("mod", n) if m is None else ("mod", n, m)


def F(n):
    return ("float", n)


def run(ctx):
    ctx.prog.add_stubs("client", "networkx", "sympy")
    ctx.rule("new", "sums, differences and products are reduced and leave the operands as they were", 5)
    ctx.rule("in-place", "in-place sums, differences and products are reduced", 5)
    ctx.rule("controlled", "in-place arithmetic under a control acts where the control holds only", 3)
    ctx.rule("inverted", "in-place arithmetic under inversion is the inverse arithmetic", 2)
    ctx.rule("function", "the functions of modular arithmetic give the reduced result", 2)
    ctx.rule("compare", "comparisons are true exactly where they hold", 5)
    for N in (2, 3, 4, 5, 6, 7):
        for op in ("+", "-"):
            binary(ctx, "new", op, M(N), M(N))
        for op in ("+=", "-="):
            binary(ctx, "in-place", op, M(N), M(N))
            for c in (0, 1, N - 1, N // 2, N, N + 1, -1):
                binary(ctx, "in-place", op, M(N), c)
    for N in (5, 6, 7):
        for c in (1, 3, N - 1):
            for op in ("+", "-"):
                binary(ctx, "new", op, M(N), c)
                binary(ctx, "new", op, c, M(N))
    for N in (3, 5, 7):
        for ad in ("fourier", "gidney", "cuccaro", "qcla"):
            if N < 7 or ad in ("fourier", "gidney"):
                binary(ctx, "new", "*", M(N), M(N), adder=ad)
            for i, op in enumerate(("+=", "-=")):
                if N < 7:
                    binary(ctx, "new", op[0], M(N), M(N), adder=ad)
                    binary(ctx, "in-place", op, M(N), M(N), adder=ad)
                    binary(ctx, "in-place", op, M(N), 2, adder=ad)
                    binary(ctx, "inverted", op, M(N), M(N), "invert", ad)
                    binary(ctx, "inverted", op, M(N), 2, "invert", ad)
                if N != 3:
                    binary(ctx, "controlled", op, M(N), M(N), "control", ad)
                    binary(ctx, "controlled", op, M(N), 2, "control", ad)
    for N, c in ((3, 1), (3, 2), (3, 5), (5, 1), (5, 2), (5, 4), (5, 7), (7, 3), (7, 4), (9, 2)):
        for ad in ("fourier", "gidney"):
            binary(ctx, "new", "*", M(N), c, adder=ad)
            binary(ctx, "in-place", "*=", M(N), c, adder=ad)
    for N, c, ad in ((3, 2, "fourier"), (3, 2, "gidney"), (3, 1, "fourier"), (5, 2, "fourier"), (5, 3, "gidney"), (5, 4, "fourier")):
        binary(ctx, "controlled", "*=", M(N), c, "control", ad)
        binary(ctx, "inverted", "*=", M(N), c, "invert", ad)
    binary(ctx, "controlled", "*=", M(3), 2, "twice", "fourier")
    for ad in ("cuccaro", "qcla"):
        binary(ctx, "in-place", "*=", M(3), 2, adder=ad)
        binary(ctx, "new", "*", M(5), 3, adder=ad)
    for N, c in ((5, 0), (5, 6), (7, -1), (9, 3)):
        binary(ctx, "new", "*", c, M(N))
    for N, m in ((5, 1), (5, 2), (7, 3), (5, -1)):
        for op in ("+", "-"):
            binary(ctx, "new", op, M(N, m), M(N, m))
            binary(ctx, "new", op, M(N, m), 3)
        for op in ("+=", "-="):
            binary(ctx, "in-place", op, M(N, m), M(N, m))
            binary(ctx, "in-place", op, M(N, m), 3)
        binary(ctx, "new", "*", M(N, m), M(N))
        binary(ctx, "new", "*", M(N, m), 3)
        binary(ctx, "in-place", "*=", M(N, m), 3)
    for N, m, k in ((5, 1, 0), (5, 0, 1), (5, -1, 1), (7, 2, 0)):
        binary(ctx, "in-place", "+=", M(N, m), M(N, k))
    binary(ctx, "in-place", "*=", M(7), -2)
    binary(ctx, "in-place", "*=", M(5), -1, adder="gidney")
    for name in ("semi_cl_inpl_mult", "qft_semi_cl_inpl_mult"):
        for N, c in ((3, 2), (5, 2), (5, 4), (7, 3), (5, 1), (5, 8)):
            call(ctx, name, (M(N), c), lambda v, c=c, N=N: [v[0] * c % N])
    for N in (3, 5, 7):
        for ad in ("fourier", "gidney"):
            call(ctx, "mod_adder", (2, M(N), ad, N), lambda v, N=N: [(v[0] + 2) % N])
            call(ctx, "mod_adder", (M(N), M(N), ad, N), lambda v, N=N: [v[0], (v[0] + v[1]) % N])
        call(ctx, "beauregard_adder", (M(N), 2, N), lambda v, N=N: [(v[0] + 2) % N])
        call(ctx, "beauregard_adder", (M(N), M(N), N), lambda v, N=N: [(v[0] + v[1]) % N, v[1]])
    call(ctx, "montgomery_mod_mul", (M(5), M(5)), lambda v: [v[0], v[1], v[0] * v[1] % 5])
    call(ctx, "montgomery_mod_semi_mul", (M(5), 3), lambda v: [v[0], v[0] * 3 % 5])
    call(ctx, "montgomery_mod_semi_mul", (M(7), 1), lambda v: [v[0], v[0]])
    call(ctx, "montgomery_mod_semi_mul", (M(7), 5), lambda v: [v[0], v[0] * 5 % 7])
    for op in COMPARE:
        for N in (3, 5):
            binary(ctx, "compare", op, M(N), M(N))
            for c in (0, 1, N - 1, N, N + 1):
                binary(ctx, "compare", op, M(N), c)
        binary(ctx, "compare", op, M(5), M(5), adder="gidney")


def decide(ctx, rid, key, where, fn, args, verdict, limit=80, phases=True):
    """As arith.decide, with the tables of decoded values before and after."""
    if not ctx.mine():
        return

    def body(w):
        ins, flags, outs, before, after = start2(w, fn, *args)
        qs = w.getattr(list(outs)[0], "qs")
        return ins, flags, outs, [list(t) for t in before], [list(t) for t in after], list(w.getattr(qs, "data"))
    try:
        outs, complete = run_paths(ctx, body, (), max_paths=16, models=DECOR, emodels={**ARGSPEC, **LOOPS, **MACHINE}, max_steps=40000000)
    except Imprecise as e:
        ctx.unresolved(rid, key, e)
        return
    for o in outs:
        if o.kind == "raise":
            ctx.violate(rid, key, loc(o.value.node) if o.value.node is not None else where, "fails with %r" % (o.value.exc,))
            return
        if o.kind != "ok":
            ctx.unresolved(rid, key, o.value)
            return
        ins, flags, qvs, before, after, data = o.value
        inq = [q for r in ins for q in r[::-1]] + list(flags)
        regs = [list(q.attrs["reg"])[::-1] for q in qvs]
        outq = [q for r in regs for q in r] + list(flags)
        isz = [len(r) for r in ins] + [1] * len(flags)
        osz = [len(r) for r in regs] + [1] * len(flags)
        try:
            before = [[number(x) for x in t] for t in before]
            after = [[number(x) for x in t] for t in after]
        except (TypeError, ValueError):
            ctx.unresolved(rid, key, "the decoded values are not known")
            return
        cols = []
        for v in range(2 ** len(inq)):
            raw = split(v, isz)
            if all(t[r] is not None for t, r in zip(before, raw)):
                cols.append(v)
        if len(cols) > limit:
            cols = sorted({cols[0], cols[-1], *[cols[(i * 2654435761 + 12345) % len(cols)] for i in range(limit)]})
        try:
            m = CH.basis_map(data, inq, outq, cols, {})
        except O.Undenotable as e:
            ctx.unresolved(rid, key, e)
            return
        if isinstance(m, str):
            ctx.violate(rid, key, where, m)
            return
        ref = None
        for v, (x, amp) in zip(cols, m):
            a, b = split(v, isz), split(x, osz)
            vals = [t[r] for t, r in zip(before, a)]
            res = [t[r] for t, r in zip(after, b)]
            if None in res:
                wrong = "%s gives a value above the modulus" % (vals,)
            else:
                wrong = verdict(vals, a[len(ins):], res, b[len(qvs):])
            if wrong:
                ctx.violate(rid, key, where, wrong)
                return
            if ref is None:
                ref = amp
            if phases and abs(amp - ref) > 1e-3:
                ctx.violate(rid, key, where, "gives different inputs different phases")
                return
    ctx.ok(rid, key)


def number(x):
    f = float(x)
    if f != f:
        return None
    if f != int(f):
        raise ValueError(x)
    return int(f)


def start2(w, fn, *args):
    for m in MODULES:
        if m in w.prog.modules:
            w.run_module(w.prog.modules[m])
    return w.call(w.lookup("client.modular", fn), list(args), {}, None)


def shown(x):
    if isinstance(x, tuple):
        return "%s%d%s" % (x[0], x[1], "" if len(x) < 3 else "(shift %d)" % x[2])
    return str(x)


def modulus(*xs):
    return next(x[1] for x in xs if isinstance(x, tuple) and x[0] == "mod")


def binary(ctx, rid, op, left, right, mode="", adder=""):
    sym = op if mode == "" else "%s (%s)" % (op, mode)
    key = "%s %s %s%s" % (shown(left), sym, shown(right), ", " + adder if adder else "")
    where = fn_loc(ctx, QM, "QuantumModulus") + "." + NAMES[op]
    N = modulus(left, right)
    n = sum(isinstance(x, tuple) for x in (left, right))

    def verdict(vals, flag, res, flag_out):
        if flag != flag_out:
            return "changes the control"
        a = vals[0] if isinstance(left, tuple) else left
        b = vals[-1] if isinstance(right, tuple) else right
        if op in COMPARE:
            if res[:n] != vals:
                return "changes an operand"
            if bool(res[-1]) != COMPARE[op](a, b):
                return "%s %s %s gives %s" % (a, op, b, bool(res[-1]))
            return None
        if op in INPLACE:
            if not all(flag):
                want = a
            elif mode == "invert":
                want = a * pow(b, -1, N) % N if op == "*=" else (2 * a - INPLACE[op](a, b)) % N
            else:
                want = INPLACE[op](a, b) % N
            if res[0] != want:
                return "%s %s %s gives %s instead of %s" % (a, sym, b, res[0], want)
            if res[1:] != vals[1:]:
                return "changes the other operand"
            return None
        if res[:n] != vals:
            return "changes an operand: %s becomes %s" % (vals, res[:n])
        if res[-1] != EXACT[op](a, b) % N:
            return "%s %s %s gives %s" % (a, op, b, res[-1])
    decide(ctx, rid, key, where, "binary", (op, left, right, mode, adder), verdict)


def call(ctx, name, args, f):
    key = "%s(%s)" % (name, ", ".join(shown(x) for x in args))

    def verdict(vals, flag, res, flag_out):
        want = f(vals)
        if res != want:
            return "%s gives %s instead of %s" % (vals, res, want)
    decide(ctx, "function", key, fn_loc(ctx, QM, "QuantumModulus"), "called", (name, tuple(args), ()), verdict)
