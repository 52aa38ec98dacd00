"""Polynomials with numeric coefficients, in expanded form."""


class Basic:
    pass


class Expr(Basic):
    """terms: {((symbol name, power), ...): coefficient}, monomials sorted by name."""

    def __init__(self, terms):
        self.terms = terms

    @property
    def free_symbols(self):
        names = []
        for m in self.terms:
            for n, k in m:
                if n not in names:
                    names.append(n)
        return {Symbol(n) for n in names}

    @property
    def args(self):
        return ()

    def expand(self):
        return self

    def subs(self, old, new=None):
        if new is not None:
            old = {old: new}
        pows = {}
        names = {}
        for k, v in old.items():
            v = sympify(v)
            m = list(k.terms)[0]
            if isinstance(k, Symbol):
                names[k.name] = v
            else:
                pows[m[0]] = v
        out = Number(0)
        for m, c in self.terms.items():
            e = number(c)
            for f in m:
                if f in pows:
                    e = e * pows[f]
                elif f[0] in names:
                    e = e * names[f[0]] ** f[1]
                else:
                    e = e * build({(f,): 1})
            out = out + e
        return out

    def __add__(self, other):
        other = sympify(other)
        out = dict(self.terms)
        for m, c in other.terms.items():
            out[m] = out[m] + c if m in out else c
        return build(out)

    def __radd__(self, other):
        return sympify(other) + self

    def __neg__(self):
        return build({m: -c for m, c in self.terms.items()})

    def __sub__(self, other):
        return self + (-sympify(other))

    def __rsub__(self, other):
        return sympify(other) + (-self)

    def __mul__(self, other):
        other = sympify(other)
        out = {}
        for m, c in self.terms.items():
            for n, d in other.terms.items():
                k = times(m, n)
                out[k] = out[k] + c * d if k in out else c * d
        return build(out)

    def __rmul__(self, other):
        return sympify(other) * self

    def __pow__(self, k):
        k = int(k)
        out = Number(1)
        for i in range(k):
            out = out * self
        return out

    def __truediv__(self, other):
        other = sympify(other)
        if len(other.terms) != 1:
            raise NotImplementedError("quotient of polynomials")
        n, d = list(other.terms.items())[0]
        inv = tuple([(a, -b) for a, b in n])
        out = {}
        for m, c in self.terms.items():
            if isinstance(c, int) and isinstance(d, int) and c % d == 0:
                q = c // d
            else:
                q = c / d
            out[times(m, inv)] = q
        return build(out)

    def __eq__(self, other):
        if isinstance(other, (int, float)):
            other = sympify(other)
        if not isinstance(other, Expr):
            return False
        return self.terms == other.terms

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(frozenset(self.terms.items()))


class Number(Expr):
    def __init__(self, value):
        self.value = value
        self.terms = {(): value}

    def __int__(self):
        return int(self.value)

    def __float__(self):
        return float(self.value)

    def __abs__(self):
        return number(abs(self.value))

    def __lt__(self, other):
        return self.value < plain(other)

    def __gt__(self, other):
        return self.value > plain(other)

    def __le__(self, other):
        return self.value <= plain(other)

    def __ge__(self, other):
        return self.value >= plain(other)


class Integer(Number):
    pass


class One(Integer):
    pass


class Float(Number):
    pass


class Symbol(Expr):
    def __init__(self, name):
        self.name = name
        self.terms = {((name, 1),): 1}


class Pow(Expr):
    @property
    def args(self):
        n, k = list(self.terms)[0][0]
        return (Symbol(n), Integer(k))


class Mul(Expr):
    @property
    def args(self):
        m, c = list(self.terms.items())[0]
        out = [build({(f,): 1}) for f in m]
        if not (isinstance(c, int) and c == 1):
            out = [number(c)] + out
        return tuple(out)


class Add(Expr):
    @property
    def args(self):
        return tuple([build({m: c}) for m, c in self.terms.items()])


def times(m, n):
    d = dict(m)
    for a, k in n:
        d[a] = d[a] + k if a in d else k
    return tuple([(a, d[a]) for a in sorted(d) if d[a] != 0])


def number(v):
    if isinstance(v, int):
        return One(v) if v == 1 else Integer(v)
    return Float(v)


def plain(v):
    return v.value if isinstance(v, Number) else v


def build(terms):
    terms = {m: c for m, c in terms.items() if c != 0}
    if not terms:
        return Integer(0)
    if len(terms) > 1:
        return Add(terms)
    m, c = list(terms.items())[0]
    if not m:
        return number(c)
    if isinstance(c, int) and c == 1 and len(m) == 1:
        if m[0][1] == 1:
            return Symbol(m[0][0])
        return Pow(terms)
    return Mul(terms)


def sympify(v):
    if isinstance(v, Expr):
        return v
    return number(v)


def symbols(names):
    names = names.replace(",", " ").split()
    out = []
    ranged = False
    for n in names:
        if ":" in n:
            ranged = True
            head, stop = n.split(":")
            start = ""
            while head and head[-1] in "0123456789":
                start = head[-1] + start
                head = head[:-1]
            for i in range(int(start or "0"), int(stop)):
                out.append(Symbol(head + str(i)))
        else:
            out.append(Symbol(n))
    if len(out) == 1 and not ranged:
        return out[0]
    return tuple(out)


def preorder_traversal(expr):
    out = [expr]
    for a in expr.args:
        out += preorder_traversal(a)
    return out


def order(name):
    head = name
    tail = ""
    while head and head[-1] in "0123456789":
        tail = head[-1] + tail
        head = head[:-1]
    return (head, int(tail or "0"))


class Poly:
    def __init__(self, expr, *gens, domain=None):
        self.expr = sympify(expr)
        if domain is not None:
            self.expr = build({m: c % domain for m, c in self.expr.terms.items()})
        self.gens = list(gens) or sorted(self.expr.free_symbols, key=lambda s: order(s.name))

    def as_dict(self):
        rows = []
        for m, c in self.expr.terms.items():
            d = dict(m)
            rows.append((tuple([d.get(g.name, 0) for g in self.gens]), number(c)))
        rows.sort(key=lambda r: r[0])
        return dict(rows)


def prod(values, start=1):
    r = start
    for v in values:
        r = r * v
    return r


def GF(p):
    return p


def lambdify(names, expr, modules=None):
    def f(values):
        at = {}
        for i in range(len(names[0])):
            at[names[0][i].name] = values[i]
        r = 0
        for m, c in expr.terms.items():
            for a, e in m:
                c = c * at[a] ** e
            r = r + c
        return r
    return f


class core:
    class expr:
        Expr = Expr

    class mul:
        Mul = Mul

    class add:
        Add = Add

    class symbol:
        Symbol = Symbol

    class numbers:
        Number = Number
        Integer = Integer
        One = One
        Float = Float

    class power:
        Pow = Pow


pi = 3.141592653589793
