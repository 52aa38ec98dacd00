"""Evolution under an operator and measurement of an operator mean the operator that was written."""
from scipy.linalg import expm

from .opalg import *
from sa import channel as CH
from sa.models import decorators, ARGSPEC
from .C06 import order_of
from .C14 import fbuild, fmatrix

SHARED = True

DECOR = decorators("custom_control", "custom_inversion", "gate_wrap")
MOD = "qrisp.operators.qubit.qubit_operator"
TMOD = "qrisp.operators.qubit.qubit_term"
P = psyms(1)
C = [0.75, -0.5, 1.25, 2, -1.5, 0.3]


def client(w, name, *args):
    w.run_module(w.prog.modules["qrisp.alg_primitives.mcx_algs.circuit_library"])
    return w.call(w.lookup("client.evolve", name), list(args), {}, None)


def diagonal(w, op):
    """[(coefficient, {index: letter})] of an operator, read from its terms."""
    out = []
    for t, c in w.getattr(op, "terms_dict").items():
        out.append((c, dict(w.getattr(t, "factor_dict"))))
    return out


def herm(m):
    return (m + m.conj().T) / 2


def unitary(reg, data, env):
    order = order_of(reg, data)
    ins = list(range(len(reg)))
    bs = CH.run(data, order, ins, list(range(2 ** len(reg))), env)
    if any(b.dirty for b in bs):
        return None
    out = []
    for b in bs:
        M, leak = CH.columns(b, ins, len(order))
        if leak > 1e-6:
            return None
        out.append(M)
    return out


def case(ctx, rid, key, where, body, verdict, syms=()):
    """verdict(value, env) -> None or what is wrong."""
    if not ctx.mine():
        return
    em = dict(SPARSE)
    em.update(ARGSPEC)
    em["jax.lax.population_count"] = lambda w, a, k, n: bin(a[0]).count("1") if isinstance(a[0], int) else Unk("population count")
    try:
        outs, complete = run_paths(ctx, body, syms, limit=8, max_paths=16, models=DECOR, emodels=em, max_steps=2000000)
    except Imprecise as e:
        ctx.unresolved(rid, key, e)
        return
    seen = False
    for o in outs:
        pts = points(o, syms)
        if not pts:
            continue
        if o.kind == "raise":
            ctx.violate(rid, key, loc(o.value.node) if o.value.node is not None else where, "fails with %r" % (o.value.exc,))
            return
        if o.kind != "ok":
            ctx.unresolved(rid, key, o.value)
            return
        for env in pts[:4]:
            try:
                wrong = verdict(o.value, env)
            except O.Undenotable as e:
                ctx.unresolved(rid, key, e)
                return
            if wrong:
                ctx.violate(rid, key, where, wrong + (" at %s" % env if env else ""))
                return
            seen = True
    if seen:
        ctx.ok(rid, key)
    else:
        ctx.unresolved(rid, key, "no partition reached")


def basis(ctx, rid, spec, n, method):
    H = herm(spec_matrix(spec, n))

    def body(w):
        reg, s, D = client(w, "basis", build(w, spec), n, method)
        return list(reg), list(w.getattr(s, "data")), diagonal(w, D)

    def verdict(v, env):
        reg, data, D = v
        if any(l not in ("Z", "P0", "P1") for _, s in D for l in s.values()):
            return "the operator to be measured is not diagonal: %s" % show(D)
        us = unitary(reg, data, env)
        if us is None:
            return "an ancilla is not returned"
        d = spec_matrix(D, n, env)
        for u in us:
            if not same(u.conj().T @ d @ u, H, 1e-5):
                return "the measured operator %s in the new basis is not %s" % (show(D), show(spec))
    case(ctx, rid, "%s (%s)" % (show(spec), method), fn_loc(ctx, MOD, "QubitOperator") + ".change_of_basis", body, verdict)


def simulate(ctx, s, n, controlled, inverted):
    M = string_matrix(s, n)
    H = herm(M)

    def body(w):
        op = build(w, [(1, s)])
        t = list(w.getattr(op, "terms_dict"))[0]
        reg, qs = client(w, "term", t, P[0], n, controlled, inverted)
        return list(reg), list(w.getattr(qs, "data"))

    def verdict(v, env):
        reg, data = v
        us = unitary(reg, data, env)
        if us is None:
            return "an ancilla is not returned"
        E = expm((1j if inverted else -1j) * env[P[0].name] * H)
        if controlled:
            E = O.ctrl(E)
        for u in us:
            if not (O.equal(u, E, False, 1e-4) if len(us) == 1 else O.equal(u, E, True, 1e-4)):
                return "does not evolve under %s" % show([(1, s)])
    key = "%s%s%s" % (show([(1, s)]), " controlled" if controlled else "", " inverted" if inverted else "")
    case(ctx, "term", key, fn_loc(ctx, TMOD, "QubitTerm") + ".simulate", body, verdict, P)


def evolve(ctx, rid, spec, n, options, t, steps, iter, fermionic=False):
    """The evolution agrees with the exponential up to the order of the splitting."""
    H = herm(fmatrix(spec, None, n) if fermionic else spec_matrix(spec, n))
    order = options.get("order", 1)
    sign = 1 if options.get("forward_evolution", True) else -1
    E = expm(-1j * sign * t * iter * H)

    def body(w):
        op = (fbuild if fermionic else build)(w, spec)
        reg, qs = client(w, "evolve", op, n, dict(options), t, steps, iter)
        return list(reg), list(w.getattr(qs, "data"))

    def verdict(v, env):
        reg, data = v
        us = unitary(reg, data, env)
        if us is None:
            return "an ancilla is not returned"
        tol = 1e-5 if t > 0.1 else 40 * t ** (order + 1)
        for u in us:
            if np.max(np.abs(u - E)) > tol and (len(us) == 1 or not O.equal(u, E, True, tol)):
                return "the evolution for %s with %d steps, repeated %d times, differs from the exponential by %.2g" % (t, steps, iter, np.max(np.abs(u - E)))
    key = "%s t=%s steps=%d iter=%d%s" % (fshow(spec) if fermionic else show(spec), t, steps, iter, "".join(" %s=%s" % x for x in sorted(options.items())))
    case(ctx, rid, key, fn_loc(ctx, FMOD, "FermionicOperator") + ".trotterization" if fermionic else fn_loc(ctx, MOD, "QubitOperator") + ".trotterization", body, verdict)


def fshow(spec):
    return " + ".join("(%s)%s" % (c, "*".join(t)) for c, t in spec)


def measured(ctx, spec, n, method):
    H = herm(spec_matrix(spec, n))

    def body(w):
        gs = client(w, "groups", build(w, spec), method)
        out = []
        for g, D in gs:
            ts = [(c, w.call(w.getattr(t, "serialize"), [], {}, None)) for t, c in w.getattr(D, "terms_dict").items()]
            f = w.lookup("qrisp.operators.qubit.measurement", "evaluate_observable")
            k = w.getattr(g, "num_qubits")
            vals = [sum(c * w.call(f, [t, x], {}, None) for c, t in ts) for x in range(2 ** k)]
            out.append((g, k, vals))
        return out

    def verdict(v, env):
        total = np.zeros((2 ** n, 2 ** n), dtype=complex)
        for g, k, vals in v:
            u = on_first(O.op_matrix(g, env), n)
            d = np.array([number(vals[rev(x >> (n - k), k)], env) for x in range(2 ** n)])
            total += u.conj().T @ np.diag(d) @ u
        if not same(total, H, 1e-5):
            return "the values assigned to the outcomes add up to another operator"
    case(ctx, "outcome", "%s (%s)" % (show(spec), method), "qrisp.operators.qubit.measurement.QubitOperatorMeasurement", body, verdict)


def traced(ctx, s, n):
    """The traced evaluation of an outcome agrees with the diagonal entry."""
    def body(w):
        op = build(w, [(1, s)])
        t = list(w.getattr(op, "terms_dict"))[0]
        ob = w.call(w.getattr(t, "serialize"), [], {}, None)
        f = w.lookup("qrisp.operators.qubit.jasp_measurement", "jasp_evaluate_observable_jitted")
        return [w.call(f, [ob, x], {}, None) for x in range(2 ** n)]

    def verdict(v, env):
        d = np.diag(string_matrix(s, n))
        if any(abs(number(v[rev(x, n)], env) - d[x]) > 1e-9 for x in range(2 ** n)):
            return "an outcome is given another value than the operator has there"
    case(ctx, "traced", show([(1, s)]), "qrisp.operators.qubit.jasp_measurement.jasp_evaluate_observable_jitted", body, verdict)


def rev(x, k):
    """Outcomes are numbers whose lowest bit is the first qubit."""
    return int(format(x, "0%db" % k)[::-1], 2) if k else 0


def on_first(u, n):
    return np.kron(u, np.eye(2 ** n // len(u)))


def combination(ctx, spec, n):
    H = herm(spec_matrix(spec, n))

    def body(w):
        us, cs = client(w, "unitaries", build(w, spec), n)
        return [(list(r), list(w.getattr(s, "data"))) for r, s in us], list(cs)

    def verdict(v, env):
        us, cs = v
        total = np.zeros((2 ** n, 2 ** n), dtype=complex)
        for (r, d), c in zip(us, cs):
            c = number(c, env)
            if abs(c.imag) > 1e-9 or c.real < -1e-12:
                return "a coefficient is not a nonnegative number"
            u = unitary(r, d, env)
            if u is None or len(u) != 1:
                return "an ancilla is not returned"
            total += c * u[0]
        if len(us) != len(cs) or not same(total, H, 1e-5):
            return "the unitaries and coefficients combine to another operator"
    case(ctx, "combination", show(spec), fn_loc(ctx, MOD, "QubitOperator") + ".unitaries", body, verdict)


FMOD = "qrisp.operators.fermionic.fermionic_operator"


def strings(k, letters=NONTRIVIAL):
    for ls in itertools.product(letters, repeat=k):
        yield {i: l for i, l in enumerate(ls) if l != "I"}


def commute(a, b):
    return sum(1 for i in a if i in b and a[i] != b[i]) % 2 == 0


def pick(items, k, salt=0):
    """Every k-th item, evenly spread."""
    return [x for i, x in enumerate(items) if (i * 7 + salt) % k == 0]


# terms that commute qubit by qubit
QW = [
    [(0.75, {0: "X", 1: "Y"}), (-0.5, {0: "X", 2: "Z"}), (2, {1: "Y"}), (1.25, {})],
    [(1, {0: "A", 1: "C"}), (0.5, {0: "A", 1: "C", 2: "Z"}), (-0.25, {0: "A", 1: "A"})],
    [(1, {0: "P0", 1: "X"}), (0.5, {0: "P1", 1: "X"}), (-2, {0: "Z"})],
    [(1, {0: "Z"}), (0.5, {0: "P0", 1: "P1"}), (3, {1: "P1"}), (-1, {1: "Z", 2: "Y"})],
    [(1, {0: "C", 1: "A", 2: "A"}), (0.5, {0: "C", 1: "C", 2: "A", 3: "X"}), (2, {3: "X"})],
    [(1.5, {2: "C"}), (0.5, {0: "Y", 2: "C"}), (-0.5, {0: "Y", 1: "P1", 2: "C"})],
]
# sets of commuting strings
COM = [
    [{0: "X", 1: "X"}, {0: "Y", 1: "Y"}, {0: "Z", 1: "Z"}],
    [{0: "Z", 1: "Y", 2: "Z"}, {1: "Z", 2: "Y"}],
    [{0: "X", 1: "X"}, {1: "X", 2: "X"}, {0: "Z", 1: "Z", 2: "Z", 3: "X"}],
    [{0: "X", 1: "X", 3: "Z"}, {0: "Y", 1: "Y", 2: "X"}, {0: "Z", 2: "Z", 3: "Y"}, {1: "Z", 2: "Y", 3: "X"}],
    [{2: "X", 3: "X"}, {1: "Y", 2: "Y", 3: "Z"}, {0: "Z", 1: "Y"}],
    [{0: "X", 2: "Z"}, {3: "X"}, {0: "Z", 1: "Z", 2: "Y", 3: "X"}],
    [{0: "X", 1: "Z"}, {0: "Z", 1: "X", 2: "Z"}, {1: "Z", 2: "X"}],
    [{0: "Y"}, {1: "Y", 2: "X"}, {1: "X", 2: "Y"}, {}],
    [{0: "Z", 1: "Z"}, {2: "Z"}, {0: "Z", 2: "Z"}, {1: "Z", 2: "Z"}],
]
COM_LADDER = [
    [(1, {0: "X", 1: "X", 2: "A"}), (-0.5, {0: "Y", 1: "Y", 2: "A"}), (2, {0: "Z", 1: "Z"})],
    [(1, {0: "P1", 1: "X", 2: "Y"}), (-0.5, {0: "P0", 1: "Y", 2: "X"}), (2, {0: "P0"})],
    [(1, {0: "A", 1: "C", 2: "Y", 3: "Z"}), (0.5, {0: "A", 1: "A", 2: "Z", 3: "Y"}), (0.25, {2: "X", 3: "X"})],
]
# operators with parts that do not commute
MIXED = [
    [(0.5, {0: "X"}), (0.75, {0: "Z", 1: "Z"}), (-0.5, {1: "Y"})],
    [(0.5, {0: "A", 1: "C"}), (0.25, {0: "Z"}), (-0.5, {1: "P1"}), (0.3, {})],
    [(0.5, {0: "X", 1: "X"}), (0.75, {0: "Y", 1: "Z"}), (-0.25, {0: "P0", 1: "A"}), (0.5, {1: "C"})],
    [(0.5j, {0: "A", 1: "C"}), (-0.5j, {0: "C", 1: "A"}), (0.25, {0: "Z", 1: "X"})],
    [(0.5, {0: "A", 1: "A", 2: "C"}), (0.25, {0: "X", 1: "X"}), (0.5, {1: "P0", 2: "P1"}), (-0.4, {0: "Z", 2: "Y"})],
    [(0.5 + 0.25j, {0: "A", 1: "X"}), (0.3, {0: "P1"}), (0.7, {0: "Y", 1: "C"})],
]
FERMI = [
    [(0.5, ("c0", "a1")), (0.5, ("c1", "a0")), (0.25, ("c0", "a0"))],
    [(0.75, ("c0", "a2")), (0.5, ("c1", "a1")), (-0.25, ("c1", "c0", "a0", "a1"))],
    [(0.5j, ("c0", "a2")), (-0.5j, ("c2", "a0")), (0.3, ("c1", "a1"))],
    [(0.4 + 0.3j, ("c2", "a0")), (0.5, ("a0", "a1"))],
    [(0.5, ("a1",)), (0.25, ("a0", "a1", "a2"))],
    [(0.5, ("c0", "c2", "a1", "a0")), (0.3, ("c0", "a1")), (0.2, ())],
    [(0.5, ("a0", "a2")), (-0.75, ("c1", "a1", "c2", "a2"))],
    [(0.5, ("c3", "c1", "a2", "a0")), (0.25, ("c0", "a3"))],
    [(0.5, ("a0", "a2")), (0.4, ("a1", "a3"))],
]


def sized(spec):
    return max([i for _, s in spec for i in s], default=0) + 1


def run(ctx):
    ctx.prog.add_stubs("client", "networkx")
    ctx.rule("basis", "the change of basis turns an operator into the diagonal operator it reports", 40)
    ctx.rule("term", "the evolution under a single term is the exponential of the term, also under control and inversion", 40)
    ctx.rule("commuting", "the evolution under commuting terms is the exponential of the operator", 10)
    ctx.rule("split", "the evolution under any operator agrees with the exponential up to the order of the splitting", 10)
    ctx.rule("fermionic", "the evolution under a fermionic operator is that of its hermitian part", 5)
    ctx.rule("outcome", "the values assigned to measurement outcomes add up to the hermitian part of the operator", 10)
    ctx.rule("traced", "the traced evaluation gives every outcome the value of the diagonal operator", 20)
    ctx.rule("combination", "the unitaries and coefficients of an operator combine to its hermitian part", 5)
    bases(ctx)
    terms(ctx)
    evolutions(ctx)
    outcomes(ctx)


def bases(ctx):
    for k in (1, 2, 3):
        for s in strings(k, NONTRIVIAL) if k < 3 else pick(strings(k, NONTRIVIAL), 3):
            basis(ctx, "basis", [(0.75, s)], k, "commuting_qw")
            if k == 2:
                basis(ctx, "basis", [(0.75, s)], k, "commuting")
    for n in (2, 3):
        all_ = [s for s in strings(n, ["I", "X", "Y", "Z"]) if s]
        pairs = [(a, b) for a, b in itertools.combinations(all_, 2) if commute(a, b)]
        for a, b in pairs if n == 2 else pick(pairs, 5):
            basis(ctx, "basis", [(0.75, a), (-0.5, b)], n, "commuting")
    for spec in QW:
        basis(ctx, "basis", spec, sized(spec), "commuting_qw")
    for ss in COM:
        for r in (0, 1):
            spec = list(zip(C, ss[::-1] if r else ss))
            basis(ctx, "basis", spec, sized(spec), "commuting")
    for spec in COM_LADDER:
        basis(ctx, "basis", spec, sized(spec), "commuting")


def terms(ctx):
    for k in (1, 2):
        for s in strings(k, NONTRIVIAL):
            for c in (False, True):
                for i in (False, True):
                    if k == 1 or not (c and i):
                        simulate(ctx, s, k, c, i)
    for s in pick(strings(3), 11):
        simulate(ctx, s, 3, False, False)
        simulate(ctx, s, 3, True, False)
    for s in ({0: "P0", 1: "P1", 2: "P1", 3: "Z"}, {0: "A", 1: "C", 2: "P0", 3: "A"}, {0: "P1", 1: "P0", 2: "P1", 3: "P0"}, {}, {2: "Y"}, {0: "Z", 2: "P1"},
              {3: "C", 1: "A", 0: "Z", 2: "Z"}):
        for c in (False, True):
            simulate(ctx, s, max(list(s) + [0]) + 1, c, False)


def evolutions(ctx):
    for spec in QW + [list(zip(C, ss)) for ss in COM[:4]]:
        for m in ("commuting_qw", "commuting"):
            evolve(ctx, "commuting", spec, sized(spec), {"method": m}, 0.4, 1, 1)
    for spec in QW[:3] + [list(zip(C, COM[0]))]:
        evolve(ctx, "commuting", spec, sized(spec), {"order": 2}, 0.4, 2, 1)
        evolve(ctx, "commuting", spec, sized(spec), {"forward_evolution": False}, 0.4, 1, 2)
        evolve(ctx, "commuting", spec, sized(spec), {"forward_evolution": False, "method": "commuting", "order": 2}, 0.4, 3, 2)
    for spec in MIXED:
        for m in ("commuting_qw", "commuting"):
            evolve(ctx, "split", spec, sized(spec), {"method": m}, 1e-4, 1, 1)
            evolve(ctx, "split", spec, sized(spec), {"method": m, "order": 2}, 1e-3, 1, 1)
        evolve(ctx, "split", spec, sized(spec), {"forward_evolution": False}, 1e-4, 2, 3)
        evolve(ctx, "split", spec, sized(spec), {"order": 2, "forward_evolution": False}, 1e-3, 2, 2)
    for spec in FERMI:
        n = max([int(l[1:]) for _, t in spec for l in t], default=0) + 1
        evolve(ctx, "fermionic", spec, n, {}, 1e-4, 1, 1, True)
        evolve(ctx, "fermionic", spec, n, {"forward_evolution": False}, 1e-4, 2, 3, True)
        if len(spec) == 3:
            evolve(ctx, "fermionic", spec[:1], n, {}, 0.4, 2, 1, True)


def outcomes(ctx):
    for spec in QW + MIXED + COM_LADDER + [list(zip(C, ss)) for ss in COM]:
        for m in ("commuting_qw", "commuting"):
            measured(ctx, spec, sized(spec), m)
        combination(ctx, spec, sized(spec))
    for k in (1, 2):
        for s in strings(k):
            measured(ctx, [(0.75, s)], k, "commuting_qw")
    for k in (1, 2, 3):
        for s in strings(k, ["I", "Z", "P0", "P1"]):
            traced(ctx, s, k)
