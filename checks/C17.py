"""The operators of quantum numbers compute the arithmetic result."""
import operator

from .arith import *

SHARED = True

QF = "qrisp.qtypes.quantum_float"
U1, U2, U3 = (1, 0, False), (2, 0, False), (3, 0, False)
S1, S2, S3 = (1, 0, True), (2, 0, True), (3, 0, True)
E2, E3, H2, H3, T2 = (2, 1, False), (3, 1, False), (2, -1, False), (3, -1, False), (2, -2, True)
SH3, SE2 = (3, -1, True), (2, 1, True)
F1, F2 = (1, -3, True), (2, -4, False)
EXACT = {"+": operator.add, "-": operator.sub, "*": operator.mul, "**": operator.pow}
COMPARE = {"<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
INPLACE = {"+=": operator.add, "-=": operator.sub, "*=": operator.mul}
NAMES = {"+": "__add__", "-": "__sub__", "*": "__mul__", "**": "__pow__", "<": "__lt__", ">": "__gt__", "<=": "__le__", ">=": "__ge__", "==": "__eq__",
         "!=": "__ne__", "//": "__floordiv__", "/": "__truediv__", "+=": "__iadd__", "-=": "__isub__", "*=": "__imul__",
         "<<=": "__ilshift__", ">>=": "__irshift__"}


def run(ctx):
    ctx.prog.add_stubs("client", "networkx", "sympy")
    ctx.rule("in-place", "in-place addition, subtraction and multiplication hold the exact result modulo the range of the number", 20)
    ctx.rule("new", "sums, differences and products of quantum numbers are exact and leave the operands as they were", 20)
    ctx.rule("classical", "sums, differences and products with a classical number hold the exact result", 15)
    ctx.rule("power", "powers hold the exact result", 5)
    ctx.rule("compare", "comparisons are true exactly where they hold", 40)
    ctx.rule("divide", "quotients are the exact quotient rounded to the precision of the result", 3)
    ctx.rule("shift", "shifts change the number by the power of two", 4)
    ctx.rule("controlled", "in-place arithmetic under a control acts where the control holds only", 8)
    ctx.rule("inverted", "in-place arithmetic under inversion is the inverse arithmetic", 8)
    ctx.rule("refuse", "operands the number cannot hold are refused", 3)
    for op in ("+=", "-="):
        for a, b in ((U2, U2), (U3, U2), (U2, U3), (U3, U1), (H3, U2), (U3, E2), (H3, H2), (S2, S2), (S2, U2), (S3, U1), (SH3, S1), (SH3, U2), (S3, SE2),
                     (S3, S1), (E3, E2), (U1, U1), (S1, S1), (T2, T2), (F2, U2), (F1, U1)):
            binary(ctx, "in-place", op, a, b)
        for a, b in ((U3, 1), (U3, 3), (U3, 5), (U3, -2), (U2, 0), (S2, 3), (S2, -1), (S3, 6), (H3, 1.5), (H3, -0.5), (SH3, 2.5), (SH3, -1), (E3, 4),
                     (T2, 0.25), (T2, -0.75), (U3, 9), (U3, 3.0)):
            binary(ctx, "in-place", op, a, b)
        for a, b in ((U3, U2), (S2, S2), (H3, U2), (U3, 3), (SH3, -1.5), (S2, U1)):
            binary(ctx, "controlled", op, a, b, "control")
            binary(ctx, "inverted", op, a, b, "invert")
        binary(ctx, "refuse", op, U2, S2, refused=True)
        binary(ctx, "refuse", op, U2, 0.5, refused=True)
        binary(ctx, "refuse", op, (2, 1, False), 1, refused=True)
    for a in (U2, S2, H2, SH3, T2):
        for b in (1, 2, 3, 4, 5, 6, 0.5, 1.5, 0.75) + ((-1, -2, -3, -0.5, -1.5) if a[2] else ()):
            binary(ctx, "in-place", "*=", a, b)
    for a, b in ((U2, 3), (S2, -3), (S2, 3)):
        binary(ctx, "controlled", "*=", a, b, "control")
    binary(ctx, "refuse", "*=", U2, -1, refused=True)
    binary(ctx, "refuse", "*=", S2, 0, refused=True)
    pairs = ((U2, U2), (U1, U2), (U3, U1), (S2, S2), (S2, U2), (U2, S1), (H2, U2), (U2, H3), (E2, U2), (U1, E2), (SH3, S1), (T2, U2), (T2, S1), (SE2, H2), (F2, U2), (F1, S1), (S3, S1))
    for op in ("+", "-", "*"):
        for a, b in pairs:
            binary(ctx, "new", op, a, b)
    for a in (U2, S2, H2, U3):
        binary(ctx, "new", "*", a, "same")
    for op in ("+", "-"):
        for a, b in ((U2, 1), (U3, 3), (S2, -2), (S2, 3), (SH3, 1.5), (H2, 0.5), (U2, 0)):
            binary(ctx, "classical", op, a, b)
            binary(ctx, "classical", op, b, a)
    for a, b in ((U2, 1), (U2, 3), (U2, 4), (U2, 6), (U2, -1), (U2, -3), (S2, 3), (S2, -2), (S1, 5), (H2, 3), (SH3, -1), (SH3, 2)):
        binary(ctx, "classical", "*", a, b)
        binary(ctx, "classical", "*", b, a)
    for a in (U2, S2, H2):
        binary(ctx, "classical", "*", a, 0)
        binary(ctx, "classical", "*", 0, a)
    for a in (U1, U2, S1, S2, H2, E2, T2, U3):
        for b in (1, 2, 3):
            if a != U3 or b < 3:
                binary(ctx, "power", "**", a, b)
    for a in (U2, S2, H2):
        binary(ctx, "power", "**", a, 0)
    for op in COMPARE:
        for a, b in ((U2, U2), (U1, U2), (U3, U2), (S2, S2), (S2, U2), (U2, S2), (H2, U2), (U2, H3), (E2, U2), (SH3, S2), (S1, T2), (U2, SE2),
                     (S3, S1), (S1, S3), (F2, U3), (U3, F2), (F1, SE2), (SE2, F1), (F1, U2), (F2, S2)):
            binary(ctx, "compare", op, a, b)
        for a in (U2, S2, H3, SH3, E2):
            for b in (0, 1, 2, 3, -1, -2, 0.5, 1.5, -0.5, 7, -9):
                binary(ctx, "compare", op, a, b)
    for a, b in ((U2, U2), (U3, U2), (U2, U3), (E2, U2), (U3, U1)):
        binary(ctx, "divide", "//", a, b)
    for a, b in ((U2, U2), (U3, U2), (H2, U2), (U2, H2), (S2, U2), (U2, S1)):
        binary(ctx, "divide", "/", a, b)
    for a in (U2, S2, H2):
        for b in (0, 1, 3, -2):
            binary(ctx, "shift", "<<=", a, b)
            binary(ctx, "shift", ">>=", a, b)


def binary(ctx, rid, op, left, right, mode="", refused=False):
    sym = op if mode == "" else "%s (%s)" % (op, mode)
    key = "%s %s %s" % (show(left), sym, show(right))
    where = fn_loc(ctx, QF, "QuantumFloat") + "." + NAMES[op]
    before = [kind_of(x) for x in (left, right) if isinstance(x, tuple)]
    same = right == "same"

    def verdict(kinds, raw, flag, out, flag_out):
        if flag_out != flag:
            return "changes the control"
        vals = [k.value(r) for k, r in zip(before, raw)]
        a = vals[0] if isinstance(left, tuple) else Fraction(left)
        b = a if same else (vals[-1] if isinstance(right, tuple) else Fraction(right))
        n = len(before)
        after = [k.value(r) for k, r in zip(kinds, out)]
        if op in INPLACE:
            f = INPLACE[op]
            if mode == "control" and flag == [0]:
                want = a
            elif mode == "invert":
                want = {"+=": operator.sub, "-=": operator.add}[op](a, b)
            else:
                want = f(a, b)
            if op == "*=" and before[0].signed and a == before[0].lowest:
                ok = (after[0] - want) % min(kinds[0].span, before[0].span * abs(b)) == 0
            elif op == "*=":
                ok = after[0] == want
            else:
                ok = kinds[0].congruent(after[0], want)
            if not ok:
                return "%s %s %s gives %s instead of %s" % (float(a), sym, float(b), float(after[0]), float(want))
            if any(x != y for x, y in zip(after[1:], vals[1:])):
                return "changes the other operand"
            return None
        if op in ("<<=", ">>="):
            want = a * Fraction(2) ** (right if op == "<<=" else -right)
            if after[0] != want:
                return "%s %s %s gives %s" % (float(a), op, right, float(after[0]))
            return None
        if after[:n] != vals:
            return "changes an operand: %s becomes %s" % ([float(x) for x in vals], [float(x) for x in after[:n]])
        res, kind = after[-1], kinds[-1]
        if op in COMPARE:
            want = COMPARE[op](a, b)
            if bool(res) != want:
                return "%s %s %s gives %s" % (float(a), op, float(b), bool(res))
            return None
        if op in ("//", "/"):
            if b == 0:
                return SKIP
            if op == "//":
                ok = res == a // b
            else:
                ok = abs(res - a / b) < Fraction(2) ** kind.exponent
            return None if ok else "%s %s %s gives %s" % (float(a), op, float(b), float(res))
        want = EXACT[op](a, b)
        if len(before) == 2 or op in ("*", "**"):
            ok = res == want
            if not ok and op == "*" and any(k.signed and v == k.lowest for k, v in zip(before, vals)):
                ok = kind.congruent(res, want)
        else:
            ok = kind.congruent(res, want)
        if not ok:
            return "%s %s %s gives %s" % (float(a), op, float(b), float(res))
    decide(ctx, rid, key, where, "binary", (op, left, right, mode), verdict, refused=refused)
