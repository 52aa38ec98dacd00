"""Helpers shared by the checks that decide arithmetic: operands, decoding and the comparison with exact numbers."""
from fractions import Fraction

import numpy as np

from .common import *
from sa import channel as CH
from sa.models import decorators, ARGSPEC, LOOPS, MACHINE

DECOR = decorators("custom_control", "custom_inversion", "gate_wrap", "quantum_condition", "lifted", "auto_uncompute", "adaptive_condition")
MODULES = ("qrisp.alg_primitives.mcx_algs.circuit_library", "qrisp.alg_primitives.arithmetic.adders.ripple_carry_adder")


class Kind:
    """How the bits of a register denote a number."""

    def __init__(self, size, exponent=0, signed=False):
        self.size, self.exponent, self.signed = size, exponent, signed

    def value(self, raw):
        if self.signed and raw >> (self.size - 1) & 1:
            raw -= 1 << self.size
        return raw * Fraction(2) ** self.exponent

    @property
    def span(self):
        return Fraction(2) ** (self.size + self.exponent)

    def congruent(self, x, y):
        """Whether two numbers are held by the same bits of such a register."""
        return (Fraction(x) - Fraction(y)) % self.span == 0

    @property
    def lowest(self):
        return -self.span / 2 if self.signed else Fraction(0)


def kind_of(spec):
    """(mantissa, exponent, signed) -> Kind"""
    return Kind(spec[0] + bool(spec[2]), spec[1], spec[2])


def kind_after(qv):
    a = qv.attrs
    n = len(a["reg"])
    if "exponent" not in a:
        return Kind(n)
    try:
        return Kind(n, int(a["exponent"]), bool(a["signed"]))
    except (TypeError, ValueError):
        raise O.Undenotable("the shape of the result is not known")


def show(x):
    if isinstance(x, tuple) and len(x) == 3:
        return "%s%d%s" % ("s" if x[2] else "u", x[0], "e%d" % x[1] if x[1] else "")
    return str(x)


def columns(n, limit=40):
    N = 2 ** n
    if N <= limit:
        return list(range(N))
    return sorted({0, N - 1, N // 2, N // 2 - 1, 1, *[(i * 2654435761 + 12345) % N for i in range(limit - 8)]})


def split(v, sizes):
    """The raw values of consecutive registers (first register = most significant)."""
    out = []
    for s in reversed(sizes):
        out.append(v & ((1 << s) - 1))
        v >>= s
    return out[::-1]


def start(w, fn, *args):
    for m in MODULES:
        if m in w.prog.modules:
            w.run_module(w.prog.modules[m])
    return w.call(w.lookup("client.arith", fn), list(args), {}, None)


def decide(ctx, rid, key, where, fn, args, verdict, limit=40, max_steps=8000000, refused=False, phases=True):
    """Evaluate client.arith.<fn>(*args), which returns (input registers, flags, output variables), and compare every
    chosen basis state: verdict(kinds after, raw inputs, flag inputs, raw outputs, flag outputs) -> None or a text."""
    if not ctx.mine():
        return

    def body(w):
        ins, flags, outs = start(w, fn, *args)
        sessions, data = [], []
        for q in list(outs):
            qs = w.getattr(q, "qs")
            if not any(x is qs for x in sessions):
                sessions.append(qs)
                data.extend(w.getattr(qs, "data"))
        return ins, flags, outs, data
    try:
        outs, complete = run_paths(ctx, body, (), max_paths=16, models=DECOR, emodels={**ARGSPEC, **LOOPS, **MACHINE}, max_steps=max_steps)
    except Imprecise as e:
        ctx.unresolved(rid, key, e)
        return
    for o in outs:
        if o.kind == "raise":
            if refused:
                continue
            ctx.violate(rid, key, loc(o.value.node) if o.value.node is not None else where, "fails with %r" % (o.value.exc,))
            return
        if o.kind != "ok":
            ctx.unresolved(rid, key, o.value)
            return
        if refused:
            ctx.violate(rid, key, where, "is accepted")
            return
        ins, flags, qvs, data = o.value
        inq = [q for r in ins for q in r[::-1]] + list(flags)
        regs = [list(q.attrs["reg"])[::-1] for q in qvs]
        outq = [q for r in regs for q in r] + list(flags)
        isz = [len(r) for r in ins] + [1] * len(flags)
        osz = [len(r) for r in regs] + [1] * len(flags)
        if len({id(q) for q in outq}) != len(outq):
            ctx.violate(rid, key, where, "the results share a qubit")
            return
        cols = columns(len(inq), limit)
        try:
            m = CH.basis_map(data, inq, outq, cols, {})
            kinds = [kind_after(q) for q in qvs]
        except O.Undenotable as e:
            ctx.unresolved(rid, key, e)
            return
        if isinstance(m, str):
            ctx.violate(rid, key, where, m)
            return
        ref = None
        for v, (x, amp) in zip(cols, m):
            a, b = split(v, isz), split(x, osz)
            wrong = verdict(kinds, a[:len(ins)], a[len(ins):], b[:len(qvs)], b[len(qvs):])
            if wrong is SKIP:
                continue
            if wrong:
                ctx.violate(rid, key, where, wrong)
                return
            if ref is None:
                ref = amp
            if phases and abs(amp - ref) > 1e-3:
                ctx.violate(rid, key, where, "gives different inputs different phases")
                return
        if ref is None:
            ctx.unresolved(rid, key, "no input is covered")
            return
    ctx.ok(rid, key)


SKIP = object()
