"""A client program: arithmetic with quantum numbers."""
from qrisp import QuantumFloat, QuantumBool, QuantumModulus, QuantumVariable, control, invert, inpl_mult, q_mult


def operate(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "**":
        return a ** b
    if op == "<":
        return a < b
    if op == ">":
        return a > b
    if op == "<=":
        return a <= b
    if op == ">=":
        return a >= b
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    if op == "//":
        return a // b
    if op == "/":
        return a / b
    if op == "+=":
        a += b
    elif op == "-=":
        a -= b
    elif op == "*=":
        a *= b
    elif op == "<<=":
        a <<= b
    elif op == ">>=":
        a >>= b
    else:
        raise ValueError(op)
    return None


def number(o):
    """(msize, exponent, signed) stands for a quantum number, anything else for itself."""
    if isinstance(o, tuple):
        return QuantumFloat(o[0], o[1], signed=o[2])
    return o


def binary(op, left, right, mode):
    a = number(left)
    b = a if right == "same" else number(right)
    qvs = [a] if right == "same" else [q for q in (a, b) if isinstance(q, QuantumFloat)]
    ins = [list(q.reg) for q in qvs]
    flags = []
    if mode == "control":
        c = QuantumBool()
        flags = list(c.reg)
        with control(c):
            res = operate(op, a, b)
    elif mode == "invert":
        with invert():
            res = operate(op, a, b)
    else:
        res = operate(op, a, b)
    if res is not None:
        qvs = qvs + [res]
    return ins, flags, qvs


def added(name, left, right, opts, carry_in, carry_out, mode):
    """One of the adders by name: right += left."""
    a = number(left)
    b = number(right)
    kw = dict(opts)
    qvs = [q for q in (a, b) if isinstance(q, QuantumVariable)]
    ins = [list(q.reg) for q in qvs]
    flags = []
    if carry_in:
        ci = QuantumBool()
        flags = flags + list(ci.reg)
        kw["c_in"] = ci if carry_in == "bool" else ci[0]
    if carry_out:
        co = QuantumBool()
        kw["c_out"] = co if carry_out == "bool" else co[0]
        qvs = qvs + [co]
    f = adder_of(name)
    if name == "remaud":
        z = QuantumFloat(1)
        qvs = qvs + [z]
        args = [a, b, z]
    elif name == "inpl_add":
        args = [b, a]
    elif name == "lin_incr":
        args = [b]
    elif name == "increment":
        args = [b, a]
    else:
        args = [a, b]
    if mode == "lists":
        args = [list(x) if isinstance(x, QuantumVariable) else x for x in args]
    if mode == "control":
        c = QuantumBool()
        flags = flags + list(c.reg)
        with control(c):
            f(*args, **kw)
    elif mode == "twice":
        c = QuantumBool()
        d = QuantumBool()
        flags = flags + list(c.reg) + list(d.reg)
        with control(c):
            with control(d):
                f(*args, **kw)
    elif mode == "invert":
        with invert():
            f(*args, **kw)
    else:
        f(*args, **kw)
    return ins, flags, qvs


def adder_of(name):
    import qrisp
    if name == "gidney":
        return qrisp.gidney_adder
    if name == "cuccaro":
        return qrisp.cuccaro_adder
    if name == "qcla":
        return qrisp.qcla
    if name == "fourier":
        return qrisp.fourier_adder
    if name == "remaud":
        return qrisp.remaud_adder
    if name == "inpl_add":
        return qrisp.inpl_add
    if name == "increment":
        return qrisp.increment
    if name == "lin_incr":
        return qrisp.lin_incr
    raise ValueError(name)


def applied(name, operands, opts):
    """A function of quantum numbers by name; the results follow the operands."""
    import qrisp
    nums = [number(o) for o in operands]
    qvs = [q for q in nums if isinstance(q, QuantumVariable)]
    ins = [list(q.reg) for q in qvs]
    kw = dict(opts)
    if "inpl_adder" in kw:
        kw["inpl_adder"] = adder_of(kw["inpl_adder"])
    if "output" in kw:
        out = QuantumFloat(kw["output"][0], kw["output"][1], signed=kw["output"][2])
        del kw["output"]
        nums = nums + [out]
        qvs = qvs + [out]
    f = getattr(qrisp, name)
    res = f(*nums, **kw)
    if isinstance(res, tuple):
        qvs = qvs + [r for r in res]
    elif isinstance(res, QuantumVariable) and not [q for q in qvs if q is res]:
        qvs = qvs + [res]
    return ins, [], qvs


def squared(name, operand, opts):
    import qrisp
    a = number(operand)
    ins = [list(a.reg)]
    f = getattr(qrisp, name)
    res = f(a, a, **dict(opts))
    return ins, [], [a, res]


def encoded(operands, out, terms, opts):
    """A polynomial given by its terms ((coefficient, (exponents)), ...) of the operands."""
    import sympy
    from qrisp import polynomial_encoder
    nums = [number(o) for o in operands]
    ins = [list(q.reg) for q in nums]
    names = ["x", "y", "z"][:len(nums)]
    xs = [sympy.Symbol(n) for n in names]
    poly = 0
    for c, es in terms:
        t = c
        for i in range(len(es)):
            if es[i]:
                t = t * xs[i] ** es[i]
        poly = poly + t
    res = QuantumFloat(out[0], out[1], signed=out[2])
    polynomial_encoder(nums, res, poly, **dict(opts))
    return ins, [], nums + [res]


def phased(operands, terms):
    """A phase polynomial of the operands."""
    import sympy
    from qrisp import app_phase_polynomial
    nums = [number(o) for o in operands]
    ins = [list(q.reg) for q in nums]
    names = ["x", "y", "z"][:len(nums)]
    xs = [sympy.Symbol(n) for n in names]
    poly = 0
    for c, es in terms:
        t = c
        for i in range(len(es)):
            if es[i]:
                t = t * xs[i] ** es[i]
        poly = poly + t
    app_phase_polynomial(nums, poly)
    return ins, [], nums
