"""A client program: arithmetic with numbers modulo another number."""
from qrisp import QuantumFloat, QuantumBool, QuantumModulus, QuantumVariable, control, invert
from client.arith import operate, adder_of


def number(o, adder):
    """("mod", N) or ("mod", N, m) is a number modulo N (with Montgomery shift m), ("float", n) an unsigned number, else a classical value."""
    if isinstance(o, tuple):
        if o[0] == "float":
            return QuantumFloat(o[1])
        q = QuantumModulus(o[1], inpl_adder=adder_of(adder)) if adder else QuantumModulus(o[1])
        if len(o) > 2:
            q.m = o[2]
        return q
    return o


def table(q):
    return [q.decoder(i) for i in range(2 ** q.size)]


def binary(op, left, right, mode, adder):
    a = number(left, adder)
    b = number(right, adder)
    qvs = [q for q in (a, b) if isinstance(q, QuantumVariable)]
    ins = [list(q.reg) for q in qvs]
    before = [table(q) for q in qvs]
    flags = []
    if mode == "control":
        c = QuantumBool()
        flags = list(c.reg)
        with control(c):
            res = operate(op, a, b)
    elif mode == "twice":
        c = QuantumBool()
        d = QuantumBool()
        flags = list(c.reg) + list(d.reg)
        with control(c):
            with control(d):
                res = operate(op, a, b)
    elif mode == "invert":
        with invert():
            res = operate(op, a, b)
    else:
        res = operate(op, a, b)
    if res is not None:
        qvs = qvs + [res]
    return ins, flags, qvs, before, [table(q) for q in qvs]


def called(name, args, opts):
    """A function of the modular arithmetic by name; the results follow the operands."""
    import qrisp
    kw = dict(opts)
    adder = kw.pop("adder", "")
    if "inpl_adder" in kw:
        kw["inpl_adder"] = adder_of(kw["inpl_adder"])
    nums = [number(o, adder) for o in args]
    qvs = [q for q in nums if isinstance(q, QuantumVariable)]
    ins = [list(q.reg) for q in qvs]
    before = [table(q) for q in qvs]
    if name == "mod_adder":
        nums = nums[:2] + [adder_of(nums[2])] + nums[3:]
    f = getattr(qrisp, name)
    res = f(*nums, **kw)
    if isinstance(res, QuantumVariable) and not [q for q in qvs if q is res]:
        qvs = qvs + [res]
    return ins, [], qvs, before, [table(q) for q in qvs]


def trip(modulus, shift):
    """The values after encoding and decoding."""
    q = QuantumModulus(modulus)
    q.m = shift
    return [(x, q.encoder(x), q.decoder(q.encoder(x))) for x in range(modulus)]
