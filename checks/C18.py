"""The named adders, multipliers and numeric functions compute what they are named after."""
import math

from .arith import *

SHARED = True

ARITH = "qrisp.alg_primitives.arithmetic."
HOME = {"gidney": "adders.gidney_adder:gidney_adder", "cuccaro": "adders.cuccaro_adder:cuccaro_adder", "qcla": "adders.qcla.wrapper_function:qcla",
        "fourier": "adders.fourier_adder:fourier_adder", "remaud": "adders.remaud:remaud_adder", "inpl_add": "adders.ripple_carry_adder:inpl_add",
        "increment": "adders.incrementation:increment", "lin_incr": "adders.incrementation:lin_incr",
        "q_mult": "SBP_arithmetic:q_mult", "hybrid_mult": "SBP_arithmetic:hybrid_mult", "sbp_mult": "SBP_arithmetic:sbp_mult",
        "sbp_add": "SBP_arithmetic:sbp_add", "sbp_sub": "SBP_arithmetic:sbp_sub", "polynomial_encoder": "SBP_arithmetic:polynomial_encoder",
        "app_phase_polynomial": "SBP_arithmetic:app_phase_polynomial", "inpl_mult": "SBP_arithmetic:inpl_mult",
        "q_int_mult": "ripple_mult:q_int_mult", "inpl_q_int_mult": "ripple_mult:inpl_q_int_mult",
        "jasp_multiplyer": "jasp_arithmetic.jasp_multiplyers:jasp_multiplyer", "jasp_squaring": "jasp_arithmetic.jasp_multiplyers:jasp_squaring",
        "jasp_controlling_multiplyer": "jasp_arithmetic.jasp_multiplyers:jasp_controlling_multiplyer",
        "uint_lt": "uint_clifford_t_comparisons:uint_lt", "uint_gt": "uint_clifford_t_comparisons:uint_gt",
        "uint_le": "uint_clifford_t_comparisons:uint_le", "uint_ge": "uint_clifford_t_comparisons:uint_ge",
        "q_divmod": "ripple_division:q_divmod", "q_div": "ripple_division:q_div", "qf_inversion": "ripple_division:qf_inversion",
        "q_max": "arithmetic_tools:q_max", "q_min": "arithmetic_tools:q_min", "q_floor": "arithmetic_tools:q_floor", "q_ceil": "arithmetic_tools:q_ceil",
        "q_round": "arithmetic_tools:q_round", "q_fractional": "arithmetic_tools:q_fractional", "q_modf": "arithmetic_tools:q_modf",
        "q_isqrt": "isqrt.isqrt_algorithm:q_isqrt"}


def at(ctx, name):
    mod, _, fn = HOME[name].partition(":")
    return fn_loc(ctx, ARITH + mod, fn)


def u(n, e=0):
    return (n, e, False)


def s(n, e=0):
    return (n, e, True)


def run(ctx):
    ctx.prog.add_stubs("client", "networkx", "sympy")
    ctx.rule("adder", "every adder adds, with every option, modulo the size of its target", 20)
    ctx.rule("carry", "carries going in are added and carries going out are the overflow", 8)
    ctx.rule("controlled adder", "an adder under a control acts where the control holds only", 6)
    ctx.rule("inverted adder", "an adder under inversion subtracts", 4)
    ctx.rule("multiply", "every multiplication method gives the product", 8)
    ctx.rule("polynomial", "an encoded polynomial is the polynomial of the operands", 2)
    ctx.rule("compare", "comparisons built from an adder are true exactly where they hold", 4)
    ctx.rule("divide", "quotient and remainder satisfy the division identity to the asked precision", 3)
    ctx.rule("function", "extremes, roundings, fractional parts and integer roots are those of the operand", 6)
    adders(ctx)
    products(ctx)
    functions(ctx)


def adders(ctx):
    for n in (1, 2, 3, 4):
        for name in ("gidney", "cuccaro", "qcla", "fourier"):
            add(ctx, name, u(n), u(n))
        if n > 3:
            add(ctx, "remaud", u(n), u(n))
    for name in ("gidney", "cuccaro", "qcla", "fourier"):
        for a, b in ((2, 4), (1, 3), (3, 4)):
            add(ctx, name, u(a), u(b))
        for c, b in ((0, 2), (1, 1), (1, 3), (2, 3), (5, 3), (7, 3), (6, 4), (11, 4), (-1, 3), (-3, 4), (9, 3), (21, 5)):
            add(ctx, name, c, u(b))
    for name in ("gidney", "cuccaro"):
        for a, b in ((3, 2), (4, 2), (4, 3)):
            add(ctx, name, u(a), u(b))
        for a in (u(1), u(2), u(3), 0, 1, 5, 6):
            for ci in ("", "qubit", "bool"):
                for co in ("", "qubit", "bool"):
                    if (ci or co) and ("bool" not in (ci, co) or ci in ("", co) or co == ""):
                        for m in ("", "control"):
                            add(ctx, name, a, u(3), carry_in=ci, carry_out=co, mode=m)
    for name, size in (("gidney", 3), ("cuccaro", 3), ("fourier", 3), ("qcla", 3)):
        for a in (u(size), u(2), 3, 6):
            for m in ("control", "invert", "twice"):
                if not (m == "twice" and name == "qcla"):
                    add(ctx, name, a, u(size), mode=m)
    for name in ("gidney", "cuccaro"):
        for ci in ("", "qubit"):
            for co in ("", "qubit"):
                add(ctx, name, u(1), u(1), carry_in=ci, carry_out=co, mode="control")
    for a in (u(3), u(2), 5):
        add(ctx, "gidney", a, u(3), mode="lists")
        add(ctx, "fourier", a, u(3), mode="lists")
        add(ctx, "cuccaro", a, u(3), mode="lists")
        add(ctx, "qcla", a, u(3), mode="lists")
    for red in (True, False):
        for base, exp in ((2, 0), (2, 1), (3, 1), (2, 2), (4, 0)):
            for a, b in ((u(4), u(4)), (u(5), u(5)), (11, u(5)), (u(3), u(5)), (6, u(4))):
                add(ctx, "qcla", a, b, radix_base=base, radix_exponent=exp, t_depth_reduction=red)
        for a, b in ((4, u(6)), (8, u(6)), (16, u(6)), (9, u(6)), (12, u(5)), (u(4), u(4)), (5, u(4)), (u(2), u(6))):
            add(ctx, "qcla", a, b, t_depth_reduction=red)
            if b != u(6):
                for m in ("control", "invert"):
                    add(ctx, "qcla", a, b, t_depth_reduction=red, mode=m)
    for a, b in ((u(5), u(5)), (u(6), u(6))):
        for name in ("gidney", "cuccaro", "remaud"):
            add(ctx, name, a, b)
    for a, b in ((u(3), u(3)), (u(2), u(4)), (s(2), s(2)), (s(2), s(3)), (u(2), s(3)), (u(2, -1), u(3, -1)), (u(2, 1), u(4))):
        add(ctx, "inpl_add", a, b)
    for c, b in ((1, u(1)), (1, u(2)), (1, u(3)), (1, u(4)), (-1, u(3)), (3, u(3)), (5, u(4)), (-3, u(4)), (2, u(3)), (6, u(4)), (0.5, u(3, -1)), (1.5, u(3, -1)),
                 (2, u(3, 1)), (-6, u(4)), (3, s(3)), (-3, s(3)), (7, u(4)), (0, u(3))):
        add(ctx, "increment", c, b)
    for n in (1, 2, 3, 4):
        for co in ("", "qubit"):
            add(ctx, "lin_incr", 0, u(n), carry_in="qubit", carry_out=co)


def add(ctx, name, left, right, carry_in="", carry_out="", mode="", **opts):
    extra = ["%s=%s" % kv for kv in sorted(opts.items())]
    if carry_in:
        extra.append("carry in " + carry_in)
    if carry_out:
        extra.append("carry out " + carry_out)
    if mode:
        extra.append(mode)
    key = "%s %s += %s" % (name, show(right), show(left)) + "".join(", " + x for x in extra)
    rid = {"control": "controlled adder", "twice": "controlled adder", "invert": "inverted adder"}.get(mode, "carry" if carry_in or carry_out else "adder")
    before = [kind_of(x) for x in (left, right) if isinstance(x, tuple)]
    target = before[-1]
    ulp = Fraction(2) ** target.exponent
    carry_out = carry_out or name == "remaud"

    def verdict(kinds, raw, flag, out, flag_out):
        if flag_out != flag:
            return "changes a flag"
        vals = [k.value(r) for k, r in zip(before, raw)]
        after = [k.value(r) for k, r in zip(kinds, out)]
        a = vals[0] if isinstance(left, tuple) else Fraction(left)
        b = vals[-1]
        ci = flag[0] if carry_in else 0
        on = all(flag[1:] if carry_in else flag)
        extra = a + ci * ulp if on else 0
        if mode == "invert":
            extra = -extra
        n = len(before)
        if not target.congruent(after[n - 1], b + extra):
            return "%s added to %s%s gives %s" % (float(a), float(b), " with carry" if ci else "", float(after[n - 1]))
        if n == 2 and out[0] != raw[0]:
            return "changes the summand"
        if carry_out:
            unit = int((a % target.span) / ulp) if on else 0
            want = (unit + raw[-1] + (ci if on else 0)) >> target.size
            if out[-1] != want:
                return "the carry of %s added to %s%s is %d" % (float(a), float(b), " with carry" if ci else "", out[-1])
    decide(ctx, rid, key, at(ctx, name), "added", (name, left, right, tuple(opts.items()), carry_in, carry_out if name != "remaud" else "", mode), verdict)


def products(ctx):
    pairs = ((u(2), u(2)), (u(1), u(2)), (u(3), u(2)), (s(1), s(2)), (s(2), u(2)), (u(2, -1), u(2)), (s(2, -1), s(1, 1)))
    for a, b in pairs:
        for m in ("auto", "sbp", "hybrid"):
            product(ctx, "q_mult", a, b, method=m)
        product(ctx, "sbp_mult", a, b)
        product(ctx, "hybrid_mult", a, b)
        apply(ctx, "multiply", "sbp_add", (a, b), lambda x, y: x + y)
        apply(ctx, "multiply", "sbp_sub", (a, b), lambda x, y: x - y)
    for a in (u(2), s(2), u(3), u(2, -1)):
        square(ctx, "q_mult", a)
        square(ctx, "sbp_mult", a)
    for f in (2, -1, 3):
        apply(ctx, "multiply", "hybrid_mult", (u(2), u(2)), lambda x, y, f=f: f * x * y, modular=True, cl_factor=f)
        apply(ctx, "multiply", "hybrid_mult", (u(2), s(1)), lambda x, y, f=f: f * x * y, modular=True, cl_factor=f)
    apply(ctx, "multiply", "hybrid_mult", (u(2), u(2)), lambda x, y: x * y, phases=False, phase_tolerant=True)
    for m in ("sbp", "hybrid"):
        for out in (u(3), u(5), s(4), u(2)):
            apply(ctx, "multiply", "q_mult", (u(2), u(2)), lambda x, y: x * y, modular=True, target=True, output=out, method=m)
    for a, b in ((u(2), u(2)), (u(3), u(2)), (u(2), u(3)), (u(1), u(2)), (u(1), u(1)), (u(2, -1), u(2)), (u(3), u(3))):
        for ad in ("fourier", "gidney", "qcla"):
            product(ctx, "q_int_mult", a, b, inpl_adder=ad)
        product(ctx, "jasp_multiplyer", a, b, inpl_adder="gidney")
        if not a[1]:
            product(ctx, "jasp_controlling_multiplyer", a, b, inpl_adder="gidney")
    for a in (u(1), u(2), u(3)):
        apply(ctx, "multiply", "jasp_squaring", (a,), lambda x: x * x, inpl_adder="gidney")
    for a in (u(2), u(3), u(4)):
        for c in (1, 3, 5, 7):
            for ad in ("fourier", "gidney"):
                change(ctx, "multiply", "inpl_q_int_mult", a, lambda x, c=c: c * x, c, inpl_adder=ad)
    for a in (u(2), s(2), u(3, -1)):
        for c in (1, 3, 5) + ((-1, -3) if a[2] else ()):
            change(ctx, "multiply", "inpl_mult", a, lambda x, c=c: c * x, c, treat_overflow=False)
    X, Y = (1, 0), (0, 1)
    for ops, out, terms in (((u(2),), u(4), ((1, (2,)), (1, (1,)))), ((u(2),), s(4), ((-1, (2,)), (3, (1,)), (1, (0,)))), ((u(2), u(2)), u(5), ((2, (1, 1)), (1, X), (3, (0, 0)))),
                            ((s(2), u(1)), s(5), ((1, (2, 1)), (-1, Y))), ((u(2, -1),), u(5, -2), ((1, (2,)), (1, (0,)))), ((u(3), s(1)), s(5), ((1, X), (-2, Y))),
                            ((u(2), u(2)), u(3), ((1, (2, 0)), (1, (0, 2)))), ((u(2), u(1), u(1)), u(5), ((1, (1, 1, 1)), (2, (2, 0, 0)), (1, (0, 0, 1)))), ((u(2),), u(6), ((1, (3,)),)),
                            ((s(1), s(1)), s(4), ((2, (1, 1)), (1, (1, 0)), (-1, (0, 1))))):
        encode(ctx, ops, out, terms)


def product(ctx, name, a, b, **opts):
    apply(ctx, "multiply", name, (a, b), lambda x, y: x * y, **opts)


def low(kinds, vals):
    return any(k.signed and v == k.lowest for k, v in zip(kinds, vals))


def apply(ctx, rid, name, operands, f, modular=False, phases=True, accept=None, **opts):
    """The result of a function; ``accept`` replaces the comparison with f."""
    opts.pop("target", None)
    key = "%s(%s%s)" % (name, ", ".join(show(x) for x in operands), "".join(", %s=%s" % (k, show(v)) for k, v in sorted(opts.items())))
    before = [kind_of(x) for x in operands if isinstance(x, tuple)]

    def verdict(kinds, raw, flag, out, flag_out):
        vals = [k.value(r) for k, r in zip(before, raw)]
        after = [k.value(r) for k, r in zip(kinds, out)]
        it = iter(vals)
        args = [next(it) if isinstance(x, tuple) else Fraction(x) for x in operands]
        n = len(before)
        if accept:
            ok = accept(args, after, kinds)
            if ok is SKIP:
                return SKIP
            if not ok:
                return "of %s gives %s" % ([float(x) for x in args], [float(x) for x in after[n:]])
            return None
        if after[:n] != vals:
            return "changes an operand: %s becomes %s" % ([float(x) for x in vals], [float(x) for x in after[:n]])
        want = f(*args)
        ok = after[n] == want
        if not ok and (modular or low(before, vals)):
            ok = kinds[n].congruent(after[n], want)
        if not ok:
            return "of %s gives %s" % ([float(x) for x in args], float(after[n]))
    decide(ctx, rid, key, at(ctx, name), "applied", (name, tuple(operands), tuple(opts.items())), verdict, phases=phases)


def square(ctx, name, a):
    before = kind_of(a)

    def verdict(kinds, raw, flag, out, flag_out):
        v = before.value(raw[0])
        r = kinds[1].value(out[1])
        if out[0] != raw[0]:
            return "changes the operand"
        if r != v * v and not (low([before], [v]) and kinds[1].congruent(r, v * v)):
            return "the square of %s is %s" % (float(v), float(r))
    decide(ctx, "multiply", "%s of %s with itself" % (name, show(a)), at(ctx, name), "squared", (name, a, ()), verdict)


def change(ctx, rid, name, a, f, *args, **opts):
    """A function that changes its operand in place, modulo its range."""
    key = "%s(%s%s%s)" % (name, show(a), "".join(", %s" % x for x in args), "".join(", %s=%s" % kv for kv in sorted(opts.items())))
    before = kind_of(a)

    def verdict(kinds, raw, flag, out, flag_out):
        v = before.value(raw[0])
        r = kinds[0].value(out[0])
        if not kinds[0].congruent(r, f(v)):
            return "of %s gives %s" % (float(v), float(r))
    decide(ctx, rid, key, at(ctx, name), "applied", (name, (a,) + args, tuple(opts.items())), verdict)


def encode(ctx, ops, out, terms):
    key = "%s of %s into %s" % (" + ".join("%s*%s" % (c, "".join("%s%d" % z for z in zip("xyz", es))) for c, es in terms), ", ".join(map(show, ops)), show(out))
    before = [kind_of(x) for x in ops]

    def verdict(kinds, raw, flag, res, flag_out):
        vals = [k.value(r) for k, r in zip(before, raw)]
        after = [k.value(r) for k, r in zip(kinds, res)]
        if after[:-1] != vals:
            return "changes an operand"
        want = sum(Fraction(c) * math.prod([v ** e for v, e in zip(vals, es)]) for c, es in terms)
        if not kinds[-1].congruent(after[-1], want):
            return "at %s gives %s" % ([float(x) for x in vals], float(after[-1]))
    decide(ctx, "polynomial", key, at(ctx, "polynomial_encoder"), "encoded", (ops, out, terms, ()), verdict)


def functions(ctx):
    tests = {"uint_lt": lambda x, y: x < y, "uint_gt": lambda x, y: x > y, "uint_le": lambda x, y: x <= y, "uint_ge": lambda x, y: x >= y}
    for name, f in tests.items():
        for a, b in ((u(2), u(2)), (u(1), u(3)), (u(3), u(1)), (u(3), u(2))):
            for ad in ("gidney", "fourier"):
                apply(ctx, "compare", name, (a, b), f, inpl_adder=ad)
        for c in (0, 1, 3, 4, 6, 7, 8, 9, -1):
            apply(ctx, "compare", name, (u(3), c), f, inpl_adder="gidney")
            apply(ctx, "compare", name, (c, u(3)), f, inpl_adder="gidney")
            apply(ctx, "compare", name, (c, u(3)), f, inpl_adder="fourier")
    for a, b in ((u(2), u(2)), (u(3), u(2)), (u(2, -1), u(2)), (u(3), u(1, 1)), (u(2), u(2, -1)), (s(2), u(2)), (u(2), s(1)), (s(2), s(1))):
        for prec in (0, 1, 2):
            def good(args, after, kinds, prec=prec):
                x, y = args
                if y == 0:
                    return SKIP
                q, r = after[-2:]
                return after[:2] == [x, y] and q * y + r == x and abs(q - x / y) < Fraction(2) ** -prec
            apply(ctx, "divide", "q_divmod", (a, b), None, accept=good, prec=prec)
    for a, b in ((u(2), u(2)), (u(3), u(1)), (u(2, -1), u(2))):
        for prec in (0, 1, 2):
            def near(args, after, kinds, prec=prec):
                x, y = args
                if y == 0:
                    return SKIP
                return after[:2] == [x, y] and abs(after[2] - x / y) < Fraction(2) ** -prec
            apply(ctx, "divide", "q_div", (a, b), None, accept=near, phases=False, prec=prec)
    for a in (u(2), u(3), u(2, -1), s(2)):
        def inverse(args, after, kinds, a=a):
            x = args[0]
            if x == 0:
                return SKIP
            return after[0] == x and abs(after[1] - 1 / x) < Fraction(2) ** -(a[0] + a[2])
        apply(ctx, "divide", "qf_inversion", (a,), None, accept=inverse, phases=False)
    for a, b in ((u(2), u(2)), (u(1), u(3)), (u(3), u(2)), (u(2, -1), u(2)), (u(2), u(2, 1)), (s(2), s(2)), (s(2), u(2)), (u(2), s(2)), (s(1), s(3)), (s(3), s(1)), (u(2, -3), u(2)), (u(2), u(2, -3)),
                 (s(1, -3), u(2)), (s(2), s(1, -2)), (s(1, -3), s(2))):
        apply(ctx, "function", "q_max", (a, b), max)
        apply(ctx, "function", "q_min", (a, b), min)
    for a in (u(2), u(3, -1), u(3, -2), s(2), s(3, -1), s(3, -2), u(2, 1)):
        apply(ctx, "function", "q_floor", (a,), lambda x: Fraction(math.floor(x)))
        apply(ctx, "function", "q_ceil", (a,), lambda x: Fraction(math.ceil(x)), modular=True)
        apply(ctx, "function", "q_round", (a,), lambda x: Fraction(math.floor(x + Fraction(1, 2))), modular=True)
        apply(ctx, "function", "q_fractional", (a,), lambda x: x - (math.floor(x) if x >= 0 else math.ceil(x)))
        if a[1] < 0:
            def parts(args, after, kinds):
                x = args[0]
                return after == [x, Fraction(math.floor(x)), x - (math.floor(x) if x >= 0 else math.ceil(x))]
            apply(ctx, "function", "q_modf", (a,), None, accept=parts)
    for n in (1, 2, 3, 4, 5):
        def root(args, after, kinds):
            x = int(args[0])
            r = math.isqrt(x)
            return after == [x - r * r, r]
        apply(ctx, "function", "q_isqrt", (u(n),), None, accept=root)
