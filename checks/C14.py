"""Fermionic operators keep the anticommutation relations, in expressions and after the mapping to qubits."""
from .opalg import *

SHARED = True

FMOD = "qrisp.operators.fermionic.fermionic_operator"
TMOD = "qrisp.operators.fermionic.fermionic_term"
P = psyms(2)
# a term is a tuple of ladder operators, written left to right: "a2" annihilates, "c2" creates
POOL = [
    [(1, ("a0",)), (2, ("c1",))],
    [(P[0], ("c0", "a1")), (P[0], ("c1", "a0"))],
    [(0.5 - 0.25j, ("a0", "a1")), (P[1], ("c2", "a2"))],
    [(1j, ("c0", "a2")), (-1j, ("c2", "a0")), (3, ())],
    [(1, ("a1", "a0")), (-1, ("a0", "a1"))],
    [(0.75, ("c0", "c1", "a1", "a0")), (-2, ("c2", "c1", "a2", "a0")), (1, ("c0", "a0"))],
    [(2, ("a2", "c1"))],
]
SCALARS = [2, -1, 0, 0.5, 1.5j, P[1]]
N = 3


def jw(l, n=N):
    i = int(l[1:])
    return kron([LETTER["Z"]] * i + [LETTER["C" if l[0] == "c" else "A"]] + [I2] * (n - i - 1))


def term_matrix(t, n=N):
    r = np.eye(2 ** n, dtype=complex)
    for l in t:
        r = r @ jw(l, n)
    return r


def fmatrix(spec, env=None, n=N):
    r = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for c, t in spec:
        r = r + number(c, env or {}) * term_matrix(t, n)
    return r


def fterm(w, t):
    r = None
    for l in t:
        x = construct(w, l[0], [int(l[1:])], mod=OPS)
        r = x if r is None else mul(w, r, x)
    if r is None:
        return construct(w, "FermionicOperator", [{construct(w, "FermionicTerm", [], mod=OPS): 1}], mod=OPS)
    return r


def fbuild(w, spec):
    r = None
    for c, t in spec:
        x = fterm(w, t)
        if not (isinstance(c, (int, float)) and c == 1):
            x = mul(w, c, x)
        r = x if r is None else add(w, r, x)
    return r


def fshow(spec):
    return " + ".join(("" if isinstance(c, (int, float)) and c == 1 else "(%s)" % (c,)) + ("*".join(t) or "1") for c, t in spec)


def farray(w, op, n=N):
    if not isinstance(op, Obj):
        return array(w, op, n)
    return array(w, meth(w, op, "to_qubit_operator"), n)


def where(ctx, name, cls="FermionicOperator", mod=FMOD):
    return fn_loc(ctx, mod, cls) + "." + name


def dag(m):
    return m.conj().T


def herm(m):
    return (m + dag(m)) / 2


def words(k, modes):
    ls = [x + str(i) for i in range(modes) for x in "ac"]
    return itertools.product(ls, repeat=k)


def run(ctx):
    ctx.prog.add_stubs("networkx")
    ctx.rule("mapping", "a product of ladder operators becomes the product of its Jordan-Wigner matrices", 40)
    ctx.rule("arithmetic", "sums, differences, products and negation of operators and scalars denote those of the matrices", 40)
    ctx.rule("in-place", "the assigning operators change their left operand to the same result", 20)
    ctx.rule("operands", "an operator expression leaves the operators it is built from unchanged", 20)
    ctx.rule("derived", "adjoint and hermitian part denote what they are named after", 10)
    ctx.rule("reduce", "the standard form denotes the same operator, or the same hermitian part when that is all that is asked", 100)
    ctx.rule("equality", "operators that differ by a reordering compare equal, operators with different coefficients do not", 20)
    ctx.rule("import", "an operator imported from another library denotes the same operator", 2)
    mapping(ctx)
    arithmetic(ctx)
    derived(ctx)
    reduced(ctx)
    equality(ctx)
    imported(ctx)


def mapping(ctx):
    ws = [()] + [w for k in (1, 2) for w in words(k, 3)] + list(words(3, 2)) + [w for w in words(4, 2)][::5] + [
        ("c0", "c1", "a2", "a1"), ("a2", "c0", "a1", "c1"), ("c2", "a2", "c0", "a0"), ("a2", "a1", "c1", "a1"), ("c3", "a1"), ("a3",), ("a0", "c3", "a2")]
    for t in ws:
        n = 1 + max([int(l[1:]) for l in t], default=2)
        n = max(n, N)
        decide(ctx, "mapping", "*".join(t) or "1", where(ctx, "to_qubit_term", "FermionicTerm", TMOD), lambda w: farray(w, fterm(w, t), n),
               lambda e: term_matrix(t, n))
        if t:
            m = 1 + max(int(l[1:]) for l in t)
            decide(ctx, "derived", "size of " + "*".join(t), where(ctx, "find_minimal_qubit_amount"),
                   lambda w: (meth(w, fterm(w, t), "find_minimal_qubit_amount"),), lambda e: (m,))


def arithmetic(ctx):
    BIN = {"Add": ("__add__", "__iadd__", lambda a, b: a + b), "Sub": ("__sub__", "__isub__", lambda a, b: a - b),
           "Mult": ("__mul__", "__imul__", lambda a, b: a @ b)}
    for (op, (nm, inm, f)), (i, a), (j, b) in itertools.product(BIN.items(), enumerate(POOL), enumerate(POOL)):
        def ref(env):
            A, B = fmatrix(a, env), fmatrix(b, env)
            return f(A, B), A, B
        key = "%s  %s  %s" % (fshow(a), op, fshow(b))

        def body(w):
            x = fbuild(w, a)
            y = x if i == j else fbuild(w, b)
            r = w.binop(op, x, y, None)
            return farray(w, r), farray(w, x), farray(w, y)
        decide(ctx, "arithmetic", key, where(ctx, nm), lambda w: body(w)[0], lambda e: ref(e)[0], P, limit=10)
        decide(ctx, "operands", key, where(ctx, nm), lambda w: body(w)[1:], lambda e: ref(e)[1:], P, limit=10)
        if i == j:
            continue

        def inplace(w):
            x, y = fbuild(w, a), fbuild(w, b)
            r = meth(w, x, inm, y)
            return farray(w, r), farray(w, x), farray(w, y)
        decide(ctx, "in-place", key, where(ctx, inm), inplace, lambda e: (ref(e)[0], ref(e)[0], ref(e)[2]), P, limit=10)
    for (op, (nm, inm, f)), a, s in itertools.product(BIN.items(), POOL, SCALARS):
        def sm(env):
            return number(s, env) * np.eye(2 ** N)
        k = "%s  %s  %s" % (fshow(a), op, s)
        decide(ctx, "arithmetic", k, where(ctx, nm), lambda w: farray(w, w.binop(op, fbuild(w, a), s, None)),
               lambda e: f(fmatrix(a, e), sm(e)), P, limit=10)
        decide(ctx, "arithmetic", "%s  %s  %s" % (s, op, fshow(a)), where(ctx, nm.replace("__", "__r", 1)),
               lambda w: farray(w, w.binop(op, s, fbuild(w, a), None)), lambda e: f(sm(e), fmatrix(a, e)), P, limit=10)

        def inplace_scalar(w):
            x = fbuild(w, a)
            r = meth(w, x, inm, s)
            return farray(w, r), farray(w, x)
        decide(ctx, "in-place", k, where(ctx, inm), inplace_scalar, lambda e: (f(fmatrix(a, e), sm(e)),) * 2, P, limit=10)
    for a in POOL:
        decide(ctx, "arithmetic", "-(%s)" % fshow(a), where(ctx, "__neg__"), lambda w: farray(w, meth(w, fbuild(w, a), "__neg__")),
               lambda e: -fmatrix(a, e), P)


def derived(ctx):
    more = [[(c, t)] for c in (1, 0.5 + 2j) for k in (1, 2) for t in words(k, 2)] + [[(1j, ("c0", "c1", "a2", "a1"))], [(2, ("a2", "c0", "a1"))]]
    for a in POOL + more:
        decide(ctx, "derived", "adjoint of " + fshow(a), where(ctx, "dagger"), lambda w: farray(w, meth(w, fbuild(w, a), "dagger")),
               lambda e: dag(fmatrix(a, e)), P)
        decide(ctx, "derived", "hermitian part of " + fshow(a), where(ctx, "hermitize"), lambda w: farray(w, meth(w, fbuild(w, a), "hermitize")),
               lambda e: herm(fmatrix(a, e)), P)


def reduced(ctx):
    ops = list(POOL)
    ops += [[(1, t)] for k in (1, 2, 3) for t in words(k, 2)] + [[(1, t)] for t in list(words(4, 2))[::3]] + [[(1, t)] for t in words(3, 3)]
    ops += [[(1, ("a2",) + t)] for t in words(3, 2)]
    ops += [[(1, t), (2, u)] for t, u in ((("a0", "a1"), ("a1", "a0")), (("c0", "a1"), ("c1", "a0")), (("a0", "a1"), ("c1", "c0")), (("c0", "a0"), ("a0", "c0")),
                                          (("a2", "c0", "a1"), ("c1", "a0", "c2")), (("c0", "c1", "a2"), ("c2", "a1", "a0")))]
    ops += [[(c, t), (d, u)] for c, d in ((1j, -1j), (0.5 + 1j, 2)) for t, u in ((("a0", "a1"), ("c1", "c0")), (("c0", "a1"), ("c1", "a0")), (("a0", "c1"), ("c0", "a1")))]
    for a in ops:
        decide(ctx, "reduce", fshow(a), where(ctx, "reduce"), lambda w: farray(w, meth(w, fbuild(w, a), "reduce")), lambda e: fmatrix(a, e), P)
        decide(ctx, "reduce", "hermitian " + fshow(a), where(ctx, "reduce"),
               lambda w: farray(w, meth(w, meth(w, fbuild(w, a), "reduce", assume_hermitian=True), "hermitize")), lambda e: herm(fmatrix(a, e)), P)


def equality(ctx):
    """Only pairs on which every reading of equality agrees: reorderings, and operators equal neither to the other nor to its adjoint."""
    C = [x for x in POOL if not any(isinstance(c, Term) for c, _ in x)] + [[(1, t)] for t in words(2, 2)] + [[(2, ("a1", "a0"))], [(1, ("a0", "c1")), (1, ("a0",))]]
    for a in C:
        for b in C:
            A, B = fmatrix(a), fmatrix(b)
            if same(A, B):
                # the standard form does not exchange a(i) and c(i)
                if any(len({l[1:] for l in t}) < len(t) for _, t in a + b) and a != b:
                    continue
                want = True
            elif same(A, dag(B)) or same(herm(A), herm(B)):
                continue
            else:
                want = False
            decide(ctx, "equality", "%s == %s" % (fshow(a), fshow(b)), where(ctx, "__eq__"),
                   lambda w: (w.truth(w.compare("Eq", fbuild(w, a), fbuild(w, b), None)),), lambda e: (want,))


def imported(ctx):
    for terms in ({((0, 1), (1, 0)): 0.5, ((2, 1), (1, 1), (1, 0), (0, 0)): -1.25}, {((1, 0),): 2j, (): 3}, {((0, 0), (2, 1), (1, 0)): 1}):
        def body(w):
            h = Unk("openfermion")
            h.attrs["terms"] = dict(terms)
            return farray(w, w.call(w.getattr(w.lookup(OPS, "FermionicOperator"), "from_openfermion"), [h], {}, None))
        spec = [(c, tuple(("c" if d else "a") + str(i) for i, d in t)) for t, c in terms.items()]
        decide(ctx, "import", fshow(spec), where(ctx, "from_openfermion"), body, lambda e: fmatrix(spec))
