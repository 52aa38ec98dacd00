"""A client program: nested blocks under environments, described as data."""
from qrisp import (QuantumVariable, QuantumBool, QuantumEnvironment, GateWrapEnvironment, IterationEnvironment, ConditionEnvironment,
                   control, conjugate, invert, custom_control, gate_wrap, quantum_condition, h, x, y, z, s, t, p, rx, ry, rz, cx, cz, cp, crz,
                   swap, gphase, mcx)


@custom_control
def custom(phi, a, b, ctrl=None):
    cx(a, b)
    if ctrl is None:
        ry(phi, b)
    else:
        with control(ctrl):
            ry(phi, b)
    cx(a, b)


@custom_control
def custom_gates(phi, a, b, ctrl=None):
    if ctrl is None:
        cx(a, b)
        p(phi, b)
    else:
        mcx([ctrl, a], b)
        cp(phi, ctrl, b)


@gate_wrap
def wrapped(phi, a, b):
    ry(phi, a)
    cx(a, b)


def rotated(phi, a):
    ry(phi, a)


def entangled(phi, a, b):
    rx(phi, a)
    cx(a, b)


def both(a, b, positive):
    res = QuantumBool(name="both*", qs=a.qs())
    mcx([a, b], res, ctrl_state="11" if positive else "01")
    return res


@quantum_condition
def holds(a):
    res = QuantumBool(name="holds*", qs=a.qs())
    cx(a, res[0])
    return res


def steps(prog, q):
    for st in prog:
        step(st, q)


def step(st, q):
    k = st[0]
    if k == "h":
        h(q[st[1]])
    elif k == "x":
        x(q[st[1]])
    elif k == "t":
        t(q[st[1]])
    elif k == "s":
        s(q[st[1]])
    elif k == "z":
        z(q[st[1]])
    elif k == "y":
        y(q[st[1]])
    elif k == "ry":
        ry(st[1], q[st[2]])
    elif k == "rx":
        rx(st[1], q[st[2]])
    elif k == "rz":
        rz(st[1], q[st[2]])
    elif k == "p":
        p(st[1], q[st[2]])
    elif k == "gphase":
        gphase(st[1], q[st[2]])
    elif k == "cx":
        cx(q[st[1]], q[st[2]])
    elif k == "cz":
        cz(q[st[1]], q[st[2]])
    elif k == "cp":
        cp(st[1], q[st[2]], q[st[3]])
    elif k == "swap":
        swap(q[st[1]], q[st[2]])
    elif k == "custom":
        custom(st[1], q[st[2]], q[st[3]])
    elif k == "custom_gates":
        custom_gates(st[1], q[st[2]], q[st[3]])
    elif k == "wrapped":
        wrapped(st[1], q[st[2]], q[st[3]])
    elif k == "ctrl":
        with control([q[i] for i in st[1]], **st[2]):
            steps(st[3], q)
    elif k == "inv":
        with invert():
            steps(st[1], q)
    elif k == "env":
        with QuantumEnvironment():
            steps(st[1], q)
    elif k == "wrap":
        with GateWrapEnvironment("wrapped"):
            steps(st[1], q)
    elif k == "conj":
        with conjugate(rotated)(st[1], q[st[2]]):
            steps(st[3], q)
    elif k == "conj2":
        with conjugate(entangled)(st[1], q[st[2]], q[st[3]]):
            steps(st[4], q)
    elif k == "cond":
        with holds(q[st[1]]):
            steps(st[2], q)
    elif k == "cond2":
        with ConditionEnvironment(both, [q[st[1]], q[st[2]], st[3]]):
            steps(st[4], q)
    elif k == "iter":
        with IterationEnvironment(q[0].qs(), st[1], precompile=st[2]):
            steps(st[3], q)
    elif k == "temp":
        tmp = QuantumBool(qs=q[0].qs())
        cx(q[st[1]], tmp[0])
        with control(tmp[0]):
            steps(st[2], q)
        cx(q[st[1]], tmp[0])
        tmp.delete()
    else:
        raise Exception("unknown step")


def main(n, prog):
    qv = QuantumVariable(n)
    q = [qv[i] for i in range(n)]
    steps(prog, q)
    return q, qv.qs
