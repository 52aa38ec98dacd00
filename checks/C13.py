"""Qubit operator expressions denote the matrices they are written as."""
from .opalg import *

SHARED = True

MOD = "qrisp.operators.qubit.qubit_operator"
TMOD = "qrisp.operators.qubit.qubit_term"

P = psyms(2)
POOL = [
    [(P[0], {0: "X", 1: "A"}), (2, {0: "Z"})],
    [(0.5 - 0.25j, {0: "Y", 1: "C"}), (P[1], {1: "P1"}), (3, {})],
    [(1, {0: "A"}), (1, {0: "C"}), (-1.5, {1: "Y"})],
    [(1j, {0: "A", 1: "C"}), (-1j, {0: "C", 1: "A"})],
    [(P[0], {0: "P0", 1: "P1"}), (P[0], {0: "P1", 1: "P0"})],
    [(-2, {0: "X", 1: "A"}), (1, {})],
    [(0.75, {0: "Z"}), (0.5j, {1: "Z"}), (1, {0: "Z", 1: "Z"})],
    [(1, {1: "X"})],
]
SCALARS = [2, -1, 0, 0.5, 1.5j, P[1]]
# operators whose terms are to be grouped
GROUPS = [
    [(1, {0: "X", 1: "X"}), (2, {0: "Y", 1: "Y"}), (3, {0: "Z", 1: "Z"}), (1, {0: "Z"})],
    [(1, {0: "X"}), (2, {1: "X"}), (3, {0: "Z"}), (4, {1: "Z"}), (1, {0: "Y", 1: "Y"})],
    [(1, {0: "A", 1: "C"}), (2, {1: "A", 2: "C"}), (0.5, {0: "P0"}), (1, {2: "P1"}), (1, {})],
    [(1, {0: "X", 1: "Z"}), (1, {1: "Z", 2: "X"}), (1, {0: "Z", 1: "X"}), (1, {0: "Y", 1: "Y", 2: "X"})],
    [(1, {0: "A"}), (1, {0: "P0"}), (2, {0: "Z", 1: "P1"}), (3, {1: "Z"}), (1, {0: "X", 1: "X"})],
    [(1, {0: "A", 1: "A"}), (1, {0: "A", 1: "Z"}), (2, {0: "X", 1: "X", 2: "X"}), (2, {2: "Y"})],
    [(1, {0: "X", 1: "Y", 2: "Z"}), (1, {0: "Y", 1: "Z", 2: "X"}), (1, {0: "Z", 1: "X", 2: "Y"}), (1, {0: "X", 2: "Z"}), (1, {1: "Y"})],
    [(1, {0: "P1", 1: "A"}), (1, {0: "P0", 1: "C"}), (1, {0: "P1"}), (1, {1: "Z"}), (2, {1: "X"})],
    [(5, {})],
]


def where(ctx, name, cls="QubitOperator", mod=MOD):
    return fn_loc(ctx, mod, cls) + "." + name


def strings(k, letters=NONTRIVIAL):
    """All strings of k letters on the first k indices."""
    for ls in itertools.product(letters, repeat=k):
        yield {i: f for i, f in enumerate(ls) if f != "I"}


def nonzero(env):
    return all(abs(v) > 1e-6 for v in env.values())


def dag(m):
    return m.conj().T


def run(ctx):
    ctx.prog.add_stubs("networkx")
    ctx.rule("factor", "every factor constructor denotes its textbook matrix on the named index", 7)
    ctx.rule("product", "the product of two strings of factors denotes the product of their matrices", 100)
    ctx.rule("arithmetic", "sums, differences, products and powers of operators and scalars denote those of the matrices", 40)
    ctx.rule("in-place", "the assigning operators change their left operand to the same result", 20)
    ctx.rule("operands", "an operator expression leaves the operators it is built from unchanged", 20)
    ctx.rule("derived", "adjoint, hermitian part, commutator, Pauli form and substitution denote what they are named after", 20)
    ctx.rule("conversion", "matrices become operators denoting the same matrix and back", 10)
    ctx.rule("commute", "commutation tests agree with the matrices", 500)
    ctx.rule("grouping", "groups of an operator's terms add up to the operator and commute in the promised sense", 10)
    factors(ctx)
    products(ctx)
    arithmetic(ctx)
    derived(ctx)
    conversion(ctx)
    commute(ctx)
    grouping(ctx)


def factors(ctx):
    for f in NONTRIVIAL:
        for i in range(3):
            decide(ctx, "factor", "%s(%d)" % (f, i), where(ctx, "to_array"),
                   lambda w: array(w, letter(w, f, i), 3), lambda env: string_matrix({i: f}, 3))


def products(ctx):
    pairs = [(a, b) for a in strings(1) for b in strings(1)]
    two = list(strings(2))
    pairs += [(a, b) for a in two for b in two]
    three = [dict(zip(range(3), s)) for s in (("X", "Y", "Z"), ("Y", "Y", "A"), ("C", "P0", "X"), ("Z", "A", "P1"))] + [{0: "X", 2: "Y"}, {1: "A"}, {2: "C"}]
    pairs += [(a, b) for a in three for b in three]
    for a, b in pairs:
        n = 3 if a in three else 2
        decide(ctx, "product", "%s * %s" % (show([(1, a)]), show([(1, b)])), where(ctx, "__mul__", "QubitTerm", TMOD),
               lambda w: array(w, mul(w, string(w, a), string(w, b)), n), lambda env: string_matrix(a, n) @ string_matrix(b, n))


def arithmetic(ctx):
    n = 2
    BIN = {"Add": ("__add__", "__iadd__", lambda a, b: a + b), "Sub": ("__sub__", "__isub__", lambda a, b: a - b),
           "Mult": ("__mul__", "__imul__", lambda a, b: a @ b)}
    for (op, (nm, inm, f)), (i, a), (j, b) in itertools.product(BIN.items(), enumerate(POOL), enumerate(POOL)):
        def ref(env):
            A, B = spec_matrix(a, n, env), spec_matrix(b, n, env)
            return f(A, B), A, B
        key = "%s  %s  %s" % (show(a), op, show(b))

        def body(w):
            x = build(w, a)
            y = x if i == j else build(w, b)
            r = w.binop(op, x, y, None)
            return array(w, r, n), array(w, x, n), array(w, y, n)
        decide(ctx, "arithmetic", key, where(ctx, nm), lambda w: body(w)[0], lambda e: ref(e)[0], P)
        decide(ctx, "operands", key, where(ctx, nm), lambda w: body(w)[1:], lambda e: ref(e)[1:], P)
        if i == j:
            continue

        def inplace(w):
            x, y = build(w, a), build(w, b)
            r = meth(w, x, inm, y)
            return array(w, r, n), array(w, x, n), array(w, y, n)
        decide(ctx, "in-place", key, where(ctx, inm), inplace, lambda e: (ref(e)[0], ref(e)[0], ref(e)[2]), P)
    for (op, (nm, inm, f)), a, s in itertools.product(BIN.items(), POOL, SCALARS):
        def sm(env):
            return number(s, env) * np.eye(2 ** n)
        k = "%s  %s  %s" % (show(a), op, s)
        decide(ctx, "arithmetic", k, where(ctx, nm), lambda w: array(w, w.binop(op, build(w, a), s, None), n),
               lambda e: f(spec_matrix(a, n, e), sm(e)), P)
        decide(ctx, "arithmetic", "%s  %s  %s" % (s, op, show(a)), where(ctx, nm.replace("__", "__r", 1)),
               lambda w: array(w, w.binop(op, s, build(w, a), None), n), lambda e: f(sm(e), spec_matrix(a, n, e)), P)

        def inplace_scalar(w):
            x = build(w, a)
            r = meth(w, x, inm, s)
            return array(w, r, n), array(w, x, n)
        decide(ctx, "in-place", k, where(ctx, inm), inplace_scalar, lambda e: (f(spec_matrix(a, n, e), sm(e)),) * 2, P)
    for a in POOL:
        for e_ in range(4):
            decide(ctx, "arithmetic", "(%s)**%d" % (show(a), e_), where(ctx, "__pow__"),
                   lambda w: array(w, w.binop("Pow", build(w, a), e_, None), n), lambda e: np.linalg.matrix_power(spec_matrix(a, n, e), e_), P)


def paulis_only(w, op):
    for t in w.iterate(w.getattr(op, "terms_dict")):
        fd = w.getattr(t, "factor_dict")
        if isinstance(fd, dict) and any(x not in ("X", "Y", "Z", "I") for x in fd.values()):
            return False
    return True


def derived(ctx):
    n = 2
    more = [[(c, s)] for c in (1, 0.5 + 2j) for s in strings(2, ["I", "X", "Y", "A", "C", "P0", "P1"])]
    for a in POOL + more:
        k = show(a)
        decide(ctx, "derived", "adjoint of " + k, where(ctx, "adjoint"), lambda w: array(w, meth(w, build(w, a), "adjoint"), n),
               lambda e: dag(spec_matrix(a, n, e)), P)
        decide(ctx, "derived", "hermitian part of " + k, where(ctx, "hermitize"), lambda w: array(w, meth(w, build(w, a), "hermitize"), n),
               lambda e: (spec_matrix(a, n, e) + dag(spec_matrix(a, n, e))) / 2, P)

        def pauli(w):
            r = meth(w, build(w, a), "to_pauli")
            return meth(w, r, "to_array", n), paulis_only(w, r)
        decide(ctx, "derived", "Pauli form of " + k, where(ctx, "to_pauli"), pauli, lambda e: (spec_matrix(a, n, e), True), P)

        def ladder(w):
            h = meth(w, build(w, a), "hermitize")
            return array(w, meth(w, meth(w, h, "eliminate_ladder_conjugates"), "hermitize"), n)
        decide(ctx, "derived", "ladder conjugates of " + k, where(ctx, "eliminate_ladder_conjugates"), ladder,
               lambda e: (spec_matrix(a, n, e) + dag(spec_matrix(a, n, e))) / 2, P)
    for a, b in itertools.product(POOL, POOL):
        def ref(e):
            A, B = spec_matrix(a, n, e), spec_matrix(b, n, e)
            return A @ B - B @ A
        decide(ctx, "derived", "[%s, %s]" % (show(a), show(b)), where(ctx, "commutator"),
               lambda w: array(w, meth(w, build(w, a), "commutator", build(w, b)), n), ref, P)
    for f, g, i, v in itertools.product(NONTRIVIAL, NONTRIVIAL, (0, 1), (2, 0.5j)):
        a = [(3, {0: f, 1: g}), (1, {1 - i: "Z"})]

        def sref(e):
            return spec_matrix([(3 * v, {1 - i: (f, g)[1 - i]}), (1, {1 - i: "Z"})], n)
        decide(ctx, "derived", "substitute index %d by %s in %s" % (i, v, show(a)), where(ctx, "subs"),
               lambda w: array(w, meth(w, build(w, a), "subs", {i: v}), n), sref)
    for a in POOL + GROUPS:
        m = 1 + max([i for _, s in a for i in s], default=-1)
        decide(ctx, "derived", "size of " + show(a), where(ctx, "find_minimal_qubit_amount"),
               lambda w: (meth(w, build(w, a), "find_minimal_qubit_amount"),), lambda e: (m,), P, when=nonzero)

        def var(e):
            M = spec_matrix(a, m, e)
            M = (M + dag(M)) / 2
            v = np.trace(M @ M).real / 2 ** m - (np.trace(M).real / 2 ** m) ** 2
            return np.array([[v * (1 - 1 / (2 ** 3 + 1))]])
        decide(ctx, "derived", "variance of " + show(a), where(ctx, "get_operator_variance"),
               lambda w: np.array([[meth(w, build(w, a), "get_operator_variance", n=3)]], dtype=object), var, P)


MATS = [
    np.array([[0, 5, 0, 1], [5, 0, 0, 0], [0, 0, 0, 2], [1, 0, 2, 0]]),
    np.array([[1, 2], [3, 4]]),
    np.array([[1.5, -2j], [0, 0.25 + 1j]]),
    np.arange(16).reshape(4, 4) + 1j * np.arange(16).reshape(4, 4).T,
    np.array([[1, 0, 2], [0, 3, 0], [4, 0, 5]]),
    np.diag([1, 2, 3, 4, 5, 6, 7, 8]) + np.diag([1, 2, 3, 4], 4) + np.diag([0.5j] * 7, -1),
]


def pad(m):
    n = int(np.ceil(np.log2(max(m.shape))))
    r = np.zeros((2 ** n, 2 ** n), dtype=complex)
    r[:m.shape[0], :m.shape[1]] = m
    return r, n


def reverse_bits(m, n):
    p = [int(format(i, "0%db" % n)[::-1], 2) for i in range(2 ** n)]
    return m[np.ix_(p, p)]


def conversion(ctx):
    from sa.sparse import csr

    def opcls(w):
        return w.lookup(OPS, "QubitOperator")
    for k, m in enumerate(MATS):
        ref, n = pad(m)
        for sp in (False, True):
            for rev in (False, True):
                decide(ctx, "conversion", "from_matrix %d %s %s" % (k, "sparse" if sp else "dense", "reversed" if rev else ""), where(ctx, "from_matrix"),
                       lambda w: array(w, w.call(w.getattr(opcls(w), "from_matrix"), [csr(w, [m], {}, None) if sp else m], {"reverse_endianness": rev}, None), n),
                       lambda e: reverse_bits(ref, n) if rev else ref)
        if m.shape[0] == 2 ** n:
            decide(ctx, "conversion", "from_numpy_array %d" % k, where(ctx, "from_numpy_array"),
                   lambda w: array(w, w.call(w.getattr(opcls(w), "from_numpy_array"), [m], {}, None), n), lambda e: ref)
    for a in POOL + GROUPS + [[(2, {2: "X"})], [(2, {1: "A", 3: "Y"})]]:
        m = 1 + max([i for _, s in a for i in s], default=-1)
        for n in [None, m + 1] + [m] * (m > 0):
            r = m if n is None else n
            decide(ctx, "conversion", "to_sparse_matrix(%s) of %s" % (n, show(a)), where(ctx, "to_sparse_matrix"),
                   lambda w: np.asarray(meth(w, meth(w, build(w, a), "to_sparse_matrix", *([] if n is None else [n])), "todense")),
                   lambda e: spec_matrix(a, r, e), P, when=nonzero)


def qubitwise(s, t):
    return all(same(LETTER[s[i]] @ LETTER[t[i]], LETTER[t[i]] @ LETTER[s[i]]) for i in s if i in t)


def commute(ctx):
    L = ["I"] + NONTRIVIAL
    two = list(strings(2, L))
    three = [dict(zip(range(3), s)) for s in itertools.product("XYZ", repeat=3)][::2] + [{0: "X", 1: "A", 2: "Y"}, {0: "Z", 1: "C", 2: "Y"}, {0: "P0", 1: "X", 2: "X"}]
    pairs = [(s, t, 2) for s in two for t in two] + [(s, t, 3) for s in three for t in three]
    state = {}

    def term(w, s):
        return construct(w, "QubitTerm", [dict(s)], mod=OPS)
    for s, t, n in pairs:
        if not ctx.mine():
            continue
        key = "%s , %s" % (show([(1, s)]), show([(1, t)]))
        A, B = string_matrix(s, n), string_matrix(t, n)
        com = same(A @ B, B @ A)
        qw = qubitwise(s, t)
        pauli = all(x in ("X", "Y", "Z", "I") for x in list(s.values()) + list(t.values()))

        def body(w):
            a, b = term(w, s), term(w, t)
            return tuple(w.truth(meth(w, a, m, b)) for m in ("commute", "commute_qw", "commute_pauli"))
        try:
            outs, _ = run_op(ctx, body)
        except Imprecise as e:
            ctx.unresolved("commute", key, e)
            continue
        for o in outs:
            if o.kind == "raise":
                ctx.violate("commute", key, where(ctx, "commute", "QubitTerm", TMOD), "raises %s" % (o.value,))
                break
            if o.kind != "ok":
                ctx.unresolved("commute", key, o.kind)
                break
            c, q, p = o.value
            bad = None
            if c != com:
                bad = ("commute", c, com)
            elif q != qw:
                bad = ("commute_qw", q, qw)
            elif (p and not com) or (pauli and p != com):
                bad = ("commute_pauli", p, com)
            if bad:
                ctx.violate("commute", key, where(ctx, bad[0], "QubitTerm", TMOD), "%s answers %s where the matrices say %s" % bad)
                break
        else:
            ctx.ok("commute", key)


def grouping(ctx):
    for a in GROUPS + POOL:
        n = 1 + max([i for _, s in a for i in s], default=0)
        for nm, kw, qw in (("commuting_groups", {}, False), ("commuting_qw_groups", {}, True), ("commuting_qw_groups", {"use_graph_coloring": False}, True)):
            if not ctx.mine():
                continue
            def body(w):
                op = build(w, a)
                gs = meth(w, op, nm, **kw)
                return tuple((array(w, g, n), [array(w, construct(w, "QubitOperator", [{t: 1}], mod=OPS), n) for t in w.getattr(g, "terms_dict")],
                              [dict(w.getattr(t, "factor_dict")) for t in w.getattr(g, "terms_dict")]) for g in gs), array(w, op, n)
            key = "%s%s of %s" % (nm, kw or "", show(a))
            try:
                outs, _ = run_op(ctx, body, P)
            except Imprecise as e:
                ctx.unresolved("grouping", key, e)
                continue
            bad, done = None, False
            for o in outs:
                pts = points(o, P)
                if not pts:
                    continue
                if o.kind != "ok":
                    bad = "raises %s" % (o.value,) if o.kind == "raise" else None
                    if bad is None:
                        ctx.unresolved("grouping", key, o.kind)
                        done = None
                    break
                try:
                    for env in pts[:4]:
                        gs, whole = o.value
                        tot = sum((numeric(g[0], env) for g in gs), np.zeros((2 ** n, 2 ** n), dtype=complex))
                        if not same(tot, spec_matrix(a, n, env)):
                            bad = "the groups do not add up to the operator"
                        if not same(numeric(whole, env), spec_matrix(a, n, env)):
                            bad = "the operator itself changed"
                        for _, ts, fs in gs:
                            ms = [numeric(t, env) for t in ts]
                            for i, j in itertools.combinations(range(len(ms)), 2):
                                if qw and not qubitwise(fs[i], fs[j]):
                                    bad = "terms %s and %s of one group do not commute qubit-wise" % (fs[i], fs[j])
                                if not same(ms[i] @ ms[j], ms[j] @ ms[i]):
                                    bad = "terms %s and %s of one group do not commute" % (fs[i], fs[j])
                        done = True
                except O.Undenotable as e:
                    ctx.unresolved("grouping", key, e)
                    done = None
                    break
                if bad:
                    break
            if bad:
                ctx.violate("grouping", key, where(ctx, nm), bad)
            elif done:
                ctx.ok("grouping", key)
