from tgt import G, Step


class Rec:
    def __init__(self, offset):
        self.offset = offset


class PauliTarget:
    def __init__(self, p, q):
        self.p = p
        self.q = q


def target_rec(offset):
    return Rec(offset)


def target_x(q):
    return PauliTarget("X", q)


def target_y(q):
    return PauliTarget("Y", q)


def target_z(q):
    return PauliTarget("Z", q)


class Circuit:
    def __init__(self):
        self.steps = []

    def append(self, name, targets=(), arg=None):
        if not isinstance(targets, (list, tuple)):
            targets = [targets]
        self.steps.append(Step(G("stim:" + name, len(targets), [arg]), targets))
