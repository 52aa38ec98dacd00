"""Operators described as data, built through the analysed constructors, and compared as matrices."""
import itertools

import numpy as np

from sa import oracle as O
from sa.sparse import MODELS as SPARSE
from checks.common import *

OPS = "qrisp.operators"
I2 = np.eye(2, dtype=complex)
LETTER = {"I": I2, "X": np.array([[0, 1], [1, 0]], dtype=complex), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1.0 + 0j, -1]),
          "A": np.array([[0, 1], [0, 0]], dtype=complex), "C": np.array([[0, 0], [1, 0]], dtype=complex),
          "P0": np.diag([1.0 + 0j, 0]), "P1": np.diag([0j, 1])}
NONTRIVIAL = ["X", "Y", "Z", "A", "C", "P0", "P1"]


def kron(ms):
    r = np.eye(1, dtype=complex)
    for m in ms:
        r = np.kron(r, m)
    return r


def string_matrix(s, n):
    """s: {index: letter}; index 0 is the leftmost factor."""
    return kron([LETTER[s.get(i, "I")] for i in range(n)])


def spec_matrix(spec, n, env=None):
    """spec: [(coefficient, {index: letter})]"""
    r = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for c, s in spec:
        r = r + number(c, env or {}) * string_matrix(s, n)
    return r


def number(x, env):
    try:
        return complex(O.evalterm(x, env))
    except (KeyError, TypeError, ZeroDivisionError, ValueError, OverflowError):
        raise O.Undenotable("coefficient %r" % (x,))


def mul(w, a, b):
    return w.binop("Mult", a, b, None)


def add(w, a, b):
    return w.binop("Add", a, b, None)


def sub(w, a, b):
    return w.binop("Sub", a, b, None)


def letter(w, name, i):
    return construct(w, name, [i], mod=OPS)


def string(w, s):
    r = None
    for i, f in s.items():
        x = letter(w, f, i)
        r = x if r is None else mul(w, r, x)
    if r is None:
        return construct(w, "QubitOperator", [{construct(w, "QubitTerm", [], mod=OPS): 1}], mod=OPS)
    return r


def build(w, spec):
    r = None
    for c, s in spec:
        x = string(w, s)
        if not (isinstance(c, (int, float)) and c == 1):
            x = mul(w, c, x)
        r = x if r is None else add(w, r, x)
    return r


def show(spec):
    def one(c, s):
        t = "*".join("%s%s" % (f, i) for i, f in sorted(s.items())) or "1"
        return t if isinstance(c, (int, float)) and c == 1 else "(%s)%s" % (c, t)
    return " + ".join(one(c, s) for c, s in spec) or "0"


def array(w, op, n):
    """The matrix the library itself publishes for op, as an array of terms."""
    if not isinstance(op, Obj):
        return np.eye(2 ** n, dtype=object) * op if not isinstance(op, Unk) else op
    return meth(w, op, "to_array", n)


def numeric(arr, env):
    if isinstance(arr, Unk) or not isinstance(arr, np.ndarray):
        raise O.Undenotable("matrix %s" % (arr,))
    return np.array([[number(x, env) for x in row] for row in np.asarray(arr)])


def same(a, b, tol=1e-7):
    return a.shape == b.shape and bool(np.max(np.abs(a - b)) < tol)


def run_op(ctx, body, syms=(), **kw):
    em = dict(SPARSE)
    em.update(kw.pop("emodels", {}) or {})
    kw.setdefault("limit", 24)
    return run_paths(ctx, body, syms, emodels=em, **kw)


def decide(ctx, rid, key, where, body, ref, syms=(), cmp=same, when=None, **kw):
    """body(w) -> array of terms (or tuple of them); ref(env) -> matrix (or tuple)."""
    if not ctx.mine():
        return
    try:
        outs, complete = run_op(ctx, body, syms, **kw)
    except Imprecise as e:
        ctx.unresolved(rid, key, e)
        return
    seen = False
    for o in outs:
        pts = [e for e in points(o, syms) if when is None or when(e)]
        if not pts:
            continue
        if o.kind == "raise":
            ctx.violate(rid, key, where, "raises %s when %s" % (o.value, describe(o.conds)))
            return
        if o.kind != "ok":
            ctx.unresolved(rid, key, "%s %s" % (o.kind, o.value))
            return
        for env in pts[:8]:
            try:
                got = o.value
                want = ref(env)
                if not isinstance(got, tuple):
                    got, want = (got,), (want,)
                got = [numeric(g, env) if isinstance(g, np.ndarray) or isinstance(g, Unk) else g for g in got]
            except O.Undenotable as e:
                ctx.unresolved(rid, key, e)
                return
            for i, (g, r) in enumerate(zip(got, want)):
                ok = cmp(g, r) if isinstance(r, np.ndarray) else g == r
                if not ok:
                    ctx.violate(rid, key, where, "differs from the matrix reference%s at %s when %s" % (
                        " (result %d)" % i if len(got) > 1 else "", env, describe(o.conds)))
                    return
            seen = True
    if seen:
        ctx.ok(rid, key)
    else:
        ctx.unresolved(rid, key, "no partition reached")
