"""A client program: building blocks of quantum algorithms. Every function returns (inputs, outputs), lists of
qubits with the most significant one first; qubits that are no inputs start in the zero state."""
import numpy as np
import qrisp
from qrisp import (QuantumFloat, QuantumBool, QuantumVariable, QuantumArray, QFT, QPE, control, invert, h, x, z, p, ry, rz, cx, cp, mcx, swap, s, t,
                   demux, cyclic_shift, permute_iterable, q_switch, reflection, amplitude_amplification)
from client.arith import adder_of


def msb(qv):
    return list(qv)[::-1]


def under(mode, f):
    """f() directly, under a control (whose qubit is returned) or inverted."""
    if mode == "control":
        c = QuantumBool()
        with control(c[0]):
            f()
        return [c[0]]
    if mode == "control0":
        c = QuantumBool()
        with control(c[0], ctrl_state=0):
            f()
        return [c[0]]
    if mode == "invert":
        with invert():
            f()
        return []
    f()
    return []


def fourier(n, opts, form, mode):
    kw = dict(opts)
    if "inpl_adder" in kw:
        kw["inpl_adder"] = adder_of(kw["inpl_adder"])
    qv = QuantumVariable(n) if form == "variable" else QuantumFloat(n, -1, signed=form == "signed") if form != "list" else QuantumVariable(n)
    arg = list(qv) if form == "list" else qv
    c = under(mode, lambda: QFT(arg, **kw))
    q = c + msb(qv)
    return [q, q, [qv]]


def turned(i, q):
    """The operation of case i."""
    if i == 0:
        x(q[0])
    elif i == 1:
        ry(0.7, q[0])
    elif i == 2:
        p(0.4, q[0])
        h(q[0])
    elif i == 3:
        z(q[0])
    elif i == 4:
        h(q[0])
    elif i == 5:
        ry(-0.3, q[0])
        s(q[0])
    elif i == 6:
        t(q[0])
    else:
        x(q[0])
        t(q[0])


def switched(n, amount, method, form, indexing, mode, operands):
    index = QuantumFloat(n)
    a = QuantumVariable(1)
    ops = [a]
    if operands == 2:
        b = QuantumVariable(1)
        ops = [a, b]

    def case(i, *qs):
        turned(i, qs[0])
        for q in qs[1:]:
            turned(7 - i, q)

    def fixed(i):
        def f(*qs):
            case(i, *qs)
        return f
    kw = {"method": method}
    k = 2 ** n if amount is None else amount
    branches = case
    if form == "list":
        branches = [fixed(i) for i in range(k)]
    elif amount is not None:
        kw["branch_amount"] = amount
    at = list(index) if indexing == "qubits" else index
    c = under(mode, lambda: q_switch(at, branches, *ops, **kw))
    q = c + msb(index) + [o[0] for o in ops]
    return [q, q, [index, a]]


def switched_old(n, amount, method, form, mode):
    index = QuantumFloat(n)
    a = QuantumVariable(1)

    def fixed(i):
        def f(q):
            turned(i, q)
        return f
    kw = {"method": method}
    k = 2 ** n if amount is None else amount
    cases = turned
    if form == "list":
        cases = [fixed(i) for i in range(k)]
    elif amount is not None:
        kw["case_amount"] = amount
    c = under(mode, lambda: qrisp.qswitch(a, index, cases, **kw))
    q = c + msb(index) + [a[0]]
    return [q, q, [index, a]]


def routed(what, n, size, opts):
    """demultiplexing and quantum indexing"""
    index = QuantumFloat(n)
    kw = dict(opts)
    if what == "demux":
        a = QuantumFloat(size)
        out = demux(a, index, **kw)
        ent = [out[i] for i in range(2 ** n)]
        return [msb(index) + msb(a), msb(index) + [q for e in ent for q in msb(e)], [index]]
    if what == "demux qubit":
        a = QuantumVariable(1)
        out = demux(a[0], index, **kw)
        return [msb(index) + [a[0]], msb(index) + list(out), [index]]
    arr = QuantumArray(qtype=QuantumFloat(size), shape=(2 ** n,))
    ent = [arr[i] for i in range(2 ** n)]
    q = msb(index) + [b for e in ent for b in msb(e)]
    if what == "demux array":
        demux(arr[0], index, arr, **kw)
        return [msb(index) + msb(ent[0]), q, [index]]
    if what == "read":
        res = qrisp.q_indexing(arr, index)
        return [q, q + msb(res), [index]]
    if what == "read env":
        res = QuantumFloat(size)
        with arr[index] as e:
            cx(e, res)
        return [q, q + msb(res), [index]]
    if what == "write env":
        with arr[index] as e:
            x(e)
        return [q, q, [index]]
    if what == "swap":
        qv = QuantumFloat(size)
        from qrisp.alg_primitives.iterable_processing import q_swap_into
        q_swap_into(arr, index, qv)
        return [q + msb(qv), q + msb(qv), [index]]
    raise ValueError(what)


def shifted(n, amount, form, mode):
    """amount: a number, or (mantissa, exponent, signed) for a quantum number"""
    qv = QuantumVariable(n)
    arg = list(qv) if form == "list" else qv
    if form == "array":
        arg = QuantumArray(qtype=QuantumBool(), shape=(n,))
        qv = [arg[i][0] for i in range(n)]
        some = arg[0]
    else:
        some = qv
    if isinstance(amount, tuple):
        k = QuantumFloat(amount[0], amount[1], signed=amount[2])
        c = under(mode, lambda: cyclic_shift(arg, k))
        q = c + msb(k) + list(qv)
        return [q, q, [some, k]]
    c = under(mode, lambda: cyclic_shift(arg, amount))
    q = c + list(qv)
    return [q, q, [some]]


def permuted(perm, form, mode):
    qv = QuantumVariable(len(perm))
    arg = list(qv) if form == "list" else qv
    c = under(mode, lambda: permute_iterable(arg, list(perm)))
    q = c + list(qv)
    return [q, q, [qv]]


def prepared(a, b=None):
    ry(0.8, a[0])
    if b is not None:
        cx(a[0], b[0])
        ry(0.5, b[0])
        p(0.3, b[0])
    elif len(a) > 1:
        cx(a[0], a[1])
        h(a[1])
        p(0.3, a[1])


def scaled(a, angle, turn=0):
    ry(angle, a[0])
    rz(turn, a[0])


def reflected(form, opts, mode):
    kw = dict(opts)
    a = QuantumFloat(2)
    b = QuantumVariable(1)
    if form == "zero":
        c = under(mode, lambda: reflection(a, **kw))
        q = c + list(a)
    elif form == "one":
        c = under(mode, lambda: reflection(b, **kw))
        q = c + list(b)
    elif form == "state":
        c = under(mode, lambda: reflection(a, state_function=prepared, **kw))
        q = c + list(a)
    elif form == "args":
        c = under(mode, lambda: reflection(b, state_function=scaled, args=[0.9], kwargs={"turn": 0.6}, **kw))
        q = c + list(b)
    elif form == "pair":
        d = QuantumVariable(1)
        c = under(mode, lambda: reflection([b, d], state_function=prepared, **kw))
        q = c + list(b) + list(d)
        return [q, q, [b, d]]
    else:
        raise ValueError(form)
    return [q, q, [a, b]]


def marked(a):
    z(a[0])


def amplified(form, n, mode):
    a = QuantumFloat(2)
    b = QuantumVariable(1)
    if form == "one":
        c = under(mode, lambda: amplitude_amplification(a, prepared, marked, iter=n))
        q = c + list(a)
        return [q, q, [a]]
    d = QuantumVariable(1)

    def oracle(u, v, phase=np.pi):
        cp(phase, u[0], v[0])
    kw = {}
    if form == "options":
        kw = {"kwargs_oracle": {"phase": 0.7}}
    c = under(mode, lambda: amplitude_amplification([b, d], prepared, oracle, iter=n, **kw))
    q = c + list(b) + list(d)
    return [q, q, [b, d]]


def estimated(phases, precision, opts, mode):
    """phase estimation of a product of phase gates on its eigenstates"""
    qv = QuantumVariable(len(phases))
    kw = dict(opts)
    scale = 1
    if kw.get("kwargs"):
        pass

    def U(args, scale=1):
        for i in range(len(phases)):
            p(phases[i] * scale, args[i])

    def powered(args, iter=1, scale=1):
        for i in range(len(phases)):
            p(phases[i] * iter * scale, args[i])
    if "target" in kw:
        kw["target"] = QuantumFloat(kw["target"][0], kw["target"][1], signed=kw["target"][2])
    elif precision is not None:
        kw["precision"] = precision
    f = powered if kw.get("iter_spec") else U
    res = QPE(qv, f, **kw)
    return [list(qv), msb(res) + list(qv), [qv]]


def estimated_amplitude(form, precision):
    a = QuantumFloat(2)
    if form == "one":
        res = qrisp.QAE(a, prepared, marked, precision=precision)
        return [[], msb(res) + list(a), [a]]
    b = QuantumVariable(1)
    d = QuantumVariable(1)

    def oracle(u, v, phase=np.pi):
        cp(phase, u[0], v[0])
    kw = {}
    if form == "options":
        kw = {"kwargs_oracle": {"phase": 0.7}}
    if form == "target":
        kw["target"] = QuantumFloat(precision, -precision)
    else:
        kw["precision"] = precision
    res = qrisp.QAE([b, d], prepared, oracle, **kw)
    return [[], msb(res) + list(b) + list(d), [b, d]]


def quantum(o):
    return QuantumFloat(o[0], o[1], signed=o[2])


def tagged(operands, values, opts, mode):
    from qrisp.algorithms.grover import tag_state
    nums = [quantum(o) for o in operands]
    spec = {}
    for i in range(len(nums)):
        spec[nums[i]] = values[i]
    c = under(mode, lambda: tag_state(spec, **dict(opts)))
    q = c
    for n in nums:
        q = q + msb(n)
    return [q, q, nums]


def diffused(operands, opts, mode):
    from qrisp.algorithms.grover import diffuser
    nums = [quantum(o) for o in operands]
    arg = nums[0] if len(nums) == 1 else nums
    c = under(mode, lambda: diffuser(arg, **dict(opts)))
    q = c
    for n in nums:
        q = q + msb(n)
    return [q, q, nums]


def searched(operands, values, opts):
    from qrisp.algorithms.grover import grovers_alg, tag_state
    nums = [quantum(o) for o in operands]

    def one(a, phase=np.pi, shift=0):
        for v in values:
            tag_state({a: v[0] + shift}, phase=phase)

    def two(args, phase=np.pi, shift=0):
        for v in values:
            tag_state({args[0]: v[0] + shift, args[1]: v[1]}, phase=phase)
    if len(nums) == 1:
        grovers_alg(nums[0], one, **dict(opts))
    else:
        grovers_alg(nums, two, **dict(opts))
    q = []
    for n in nums:
        q = q + msb(n)
    return [[], q, nums]


def polynomial(terms, xs):
    poly = 0
    for c, es in terms:
        t = c
        for i in range(len(es)):
            if es[i]:
                t = t * xs[i] ** es[i]
        poly = poly + t
    return poly


def phased(operands, terms, opts, mode):
    """A phase polynomial of quantum numbers."""
    import sympy
    from qrisp import app_phase_polynomial
    nums = [quantum(o) for o in operands]
    kw = dict(opts)
    names = ["x", "y", "z"][:len(nums)]
    if kw.get("symbol_list") == "reversed":
        names = names[::-1]
        xs = [sympy.Symbol(n) for n in names]
        kw["symbol_list"] = xs
    else:
        xs = [sympy.Symbol(n) for n in names]
    poly = polynomial(terms, xs)
    c = under(mode, lambda: app_phase_polynomial(nums, poly, **kw))
    q = c
    for n in nums:
        q = q + msb(n)
    return [q, q, nums]


def bit_phased(size, terms, opts, mode):
    """A phase polynomial of the bits of a variable."""
    import sympy
    from qrisp import app_sb_phase_polynomial
    qv = QuantumVariable(size)
    xs = [sympy.Symbol("x%d" % i) for i in range(size)]
    c = under(mode, lambda: app_sb_phase_polynomial([qv], polynomial(terms, xs), **dict(opts)))
    q = c + list(qv)
    return [q, q, [qv]]


def phase_function(operands, coefficients, mode, form):
    """A phase given by a function of the values."""
    nums = [quantum(o) for o in operands]

    def phi1(a):
        return coefficients[0] * a + coefficients[1] * a * a

    def phi2(a, b):
        return coefficients[0] * a + coefficients[1] * a * b
    if form == "method":
        c = under(mode, lambda: nums[0].app_phase_function(phi1))
    elif form == "hamiltonian":
        f = qrisp.as_hamiltonian(phi1 if len(nums) == 1 else phi2)
        c = under(mode, lambda: f(*nums))
    else:
        c = under(mode, lambda: qrisp.app_phase_function(nums, phi1 if len(nums) == 1 else phi2))
    q = c
    for n in nums:
        q = q + msb(n)
    return [q, q, nums]


def looked_up(operand, out, table, opts, form):
    """A dictionary of classical values, read with a quantum key."""
    qd = qrisp.QuantumDictionary(return_type=quantum(out))
    for k in table:
        qd[k] = table[k]
    if form == "pair":
        nums = [quantum(o) for o in operand]
        key = tuple(nums)
    else:
        nums = [quantum(operand)]
        key = nums[0]
    if form == "index":
        res = qd[key]
    elif form == "target":
        res = quantum(out)
        qd.load(key, res, **dict(opts))
    else:
        res = qd.load(key, **dict(opts))
    q = []
    for n in nums:
        q = q + msb(n)
    return [q, q + msb(res), nums]


def tabled(columns, method, mode):
    """A truth table, one string for every output bit."""
    from qrisp.alg_primitives.logic_synthesis import TruthTable
    tt = TruthTable(list(columns))
    n = tt.bit_amount
    a = QuantumVariable(n)
    b = QuantumVariable(len(columns))
    c = under(mode, lambda: tt.q_synth(a, b, method))
    q = c + list(a) + list(b)
    return [q, q, [a, b]]


def dicke(n, k, form):
    qv = QuantumVariable(n)
    for i in range(n - k, n):
        x(qv[i])
    qrisp.dicke_state(list(qv) if form == "list" else qv, k)
    return [[], list(qv), [qv]]


def w_state(amplitudes, form):
    qv = QuantumVariable(len(amplitudes))
    qrisp.unbalanced_w_state(list(qv) if form == "list" else qv, np.array(amplitudes))
    return [[], list(qv), [qv]]


def initialised(operand, amplitudes, form):
    a = quantum(operand)
    if form == "reversed":
        qrisp.prepare(a, np.array(amplitudes), reversed=True, method="qswitch")
    elif form == "labels":
        a.init_state({i: amplitudes[i] for i in range(len(amplitudes)) if amplitudes[i] != 0}, method="qswitch")
    else:
        a.init_state(np.array(amplitudes), method="qswitch")
    return [[], msb(a), [a]]


def combined(angles, form, oaa):
    """A linear combination of two unitaries."""
    from qrisp.alg_primitives.lcu import inner_LCU
    a = QuantumVariable(1)

    def operand():
        return a

    def prep(c):
        ry(angles[0], c[0])
        if len(c) > 1:
            ry(angles[1], c[1])

    def fixed(i):
        def f(q):
            turned(i, q)
        return f
    n = len(angles)
    if form == "list":
        res = inner_LCU(operand, prep, [fixed(i) for i in range(2 ** n)], oaa_iter=oaa)
    else:
        res = inner_LCU(operand, prep, turned, num_unitaries=2 ** n, oaa_iter=oaa)
    return [[a[0]], msb(res[0]) + [res[1][0]], [a]]
