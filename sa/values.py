"""Abstract value domain of the evaluator.

Host constants and host containers are exact values.  ``Sym``/``App`` are
uninterpreted or arithmetic terms over unknown inputs, ``Unk`` is the top
element tagged with its origin.
"""
import cmath
import hashlib
import math

import numpy as np


class Imprecise(Exception):
    """The analysis gives up on the current partition."""


class Term:
    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __add__(self, o):
        return mk("add", self, o)

    def __radd__(self, o):
        return mk("add", o, self)

    def __sub__(self, o):
        return mk("sub", self, o)

    def __rsub__(self, o):
        return mk("sub", o, self)

    def __mul__(self, o):
        return mk("mul", self, o)

    def __rmul__(self, o):
        return mk("mul", o, self)

    def __truediv__(self, o):
        return mk("div", self, o)

    def __rtruediv__(self, o):
        return mk("div", o, self)

    def __pow__(self, o):
        return mk("pow", self, o)

    def __rpow__(self, o):
        return mk("pow", o, self)

    def __mod__(self, o):
        return mk("mod", self, o)

    def __rmod__(self, o):
        return mk("mod", o, self)

    def __floordiv__(self, o):
        return mk("floordiv", self, o)

    def __rfloordiv__(self, o):
        return mk("floordiv", o, self)

    def __neg__(self):
        return mk("neg", self)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk("abs", self)

    def conjugate(self):
        return mk("conj", self)

    conj = conjugate

    # elementwise numpy ufuncs on object arrays call these methods
    def exp(self):
        return mk("exp", self)

    def cos(self):
        return mk("cos", self)

    def sin(self):
        return mk("sin", self)

    def sqrt(self):
        return mk("sqrt", self)

    def arctan2(self, o):
        return mk("arctan2", self, o)


def _lift_array(fn):
    def g(self, o):
        if isinstance(o, np.ndarray):
            return vec(lambda x: fn(self, x), o)
        return fn(self, o)
    return g


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__",
           "__truediv__", "__rtruediv__", "__pow__", "__rpow__"):
    setattr(Term, _n, _lift_array(getattr(Term, _n)))


class Sym(Term):
    __slots__ = ("name", "kind")

    def __init__(self, name, kind="float"):
        self.name = name
        self.kind = kind

    def __hash__(self):
        return hash(("sym", self.name))

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name and o.kind == self.kind

    def __repr__(self):
        return self.name


class App(Term):
    __slots__ = ("fn", "args", "kind", "_h")

    def __init__(self, fn, args, kind="float"):
        self.fn = fn
        self.args = tuple(args)
        self.kind = kind
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.fn,) + tuple(_h(a) for a in self.args))
        return self._h

    def __eq__(self, o):
        return isinstance(o, App) and o.fn == self.fn and len(o.args) == len(self.args) and all(
            same(a, b) for a, b in zip(self.args, o.args))

    def __repr__(self):
        ops = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "mod": "%"}
        if self.fn in ops and len(self.args) == 2:
            return "(%r %s %r)" % (self.args[0], ops[self.fn], self.args[1])
        return "%s(%s)" % (self.fn, ", ".join(map(repr, self.args)))


def _h(a):
    try:
        return hash(a)
    except TypeError:
        return 0


def same(a, b):
    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and all(
                same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        except Exception:
            return False
    try:
        return bool(a == b)
    except Exception:
        return False


def is_num(x):
    return isinstance(x, (int, float, complex, np.number, np.bool_)) and not isinstance(x, Term)


_FOLD = {
    "add": lambda a, b: a + b,
    "sub": lambda a, b: a - b,
    "mul": lambda a, b: a * b,
    "div": lambda a, b: a / b,
    "pow": lambda a, b: a ** b,
    "mod": lambda a, b: a % b,
    "floordiv": lambda a, b: a // b,
    "neg": lambda a: -a,
    "abs": abs,
    "conj": lambda a: np.conjugate(a),
    "exp": lambda a: cmath.exp(a) if isinstance(a, complex) else math.exp(a),
    "cos": lambda a: np.cos(a),
    "sin": lambda a: np.sin(a),
    "tan": lambda a: np.tan(a),
    "sqrt": lambda a: np.sqrt(a + 0j) if (isinstance(a, complex) or a < 0) else math.sqrt(a),
    "arctan2": lambda a, b: math.atan2(a, b),
    "arcsin": lambda a: np.arcsin(a),
    "arccos": lambda a: np.arccos(a),
    "arctan": lambda a: np.arctan(a),
    "log": lambda a: np.log(a),
    "log2": lambda a: np.log2(a),
    "angle": lambda a: np.angle(a),
    "real": lambda a: complex(a).real,
    "imag": lambda a: complex(a).imag,
    "float": lambda a: float(a),
    "int": lambda a: int(a),
    "complex": lambda a: complex(a),
    "round": lambda *a: round(*a),
    "floor": lambda a: math.floor(a),
    "ceil": lambda a: math.ceil(a),
    "lt": lambda a, b: a < b,
    "le": lambda a, b: a <= b,
    "eq": lambda a, b: a == b,
    "ne": lambda a, b: a != b,
    "not": lambda a: not a,
    "and": lambda a, b: a and b,
    "or": lambda a, b: a or b,
    "min": min,
    "max": max,
    "ite": lambda c, a, b: a if c else b,
}


def wrap0(x):
    """0-d object array, so that numpy broadcasts terms like scalars."""
    if isinstance(x, np.ndarray):
        return x
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def vec(f, *args):
    return np.frompyfunc(f, len(args), 1)(*[wrap0(a) for a in args])


def mk(fn, *args, kind=None):
    if all(is_num(a) for a in args) and fn in _FOLD:
        return _FOLD[fn](*args)
    for a in args:
        if isinstance(a, Unk):
            return Unk("%s(%s)" % (fn, ", ".join(map(str, args))))
        if isinstance(a, np.ndarray):
            return vec(lambda *x: mk(fn, *x), *args)
    if fn == "neg" and isinstance(args[0], App) and args[0].fn == "neg":
        return args[0].args[0]
    if fn == "add":
        if is_num(args[0]) and args[0] == 0:
            return args[1]
        if is_num(args[1]) and args[1] == 0:
            return args[0]
    if fn == "sub" and is_num(args[1]) and args[1] == 0:
        return args[0]
    if fn == "sub" and is_num(args[0]) and args[0] == 0:
        return mk("neg", args[1])
    if fn == "mul":
        for i in (0, 1):
            if is_num(args[i]):
                if args[i] == 1:
                    return args[1 - i]
                if args[i] == -1:
                    return mk("neg", args[1 - i])
                if args[i] == 0:
                    return 0
    if fn == "div" and is_num(args[1]) and args[1] == 1:
        return args[0]
    if kind is None:
        kind = "float"
        for a in args:
            k = getattr(a, "kind", None)
            if k not in (None, "float", "int"):
                kind = k
                break
    if fn in ("lt", "le", "eq", "ne", "not"):
        kind = "bool"
    if fn == "int":
        kind = "int"
    return App(fn, args, kind)


def evalterm(t, env):
    """Evaluate a term numerically; raises KeyError for foreign symbols."""
    if isinstance(t, Sym):
        return env[t.name]
    if isinstance(t, App):
        f = _FOLD.get(t.fn)
        if f is None:
            raise KeyError(t.fn)
        return f(*[evalterm(a, env) for a in t.args])
    if isinstance(t, np.ndarray):
        return np.array([evalterm(x, env) for x in t.ravel()]).reshape(t.shape)
    if is_num(t):
        return t
    if isinstance(t, (list, tuple)):
        return [evalterm(x, env) for x in t]
    raise KeyError(repr(t))


def free_syms(t, out=None):
    if out is None:
        out = set()
    if isinstance(t, Sym):
        out.add(t)
    elif isinstance(t, App):
        for a in t.args:
            free_syms(a, out)
    elif isinstance(t, (list, tuple, set)):
        for a in t:
            free_syms(a, out)
    elif isinstance(t, np.ndarray):
        for a in t.ravel():
            free_syms(a, out)
    return out


def substitute(t, sub):
    """Replace symbols by name."""
    if isinstance(t, Sym):
        return sub.get(t.name, t)
    if isinstance(t, App):
        return mk(t.fn, *[substitute(a, sub) for a in t.args])
    return t


class Unk:
    """Top element; remembers where it came from."""
    _n = 0

    __array_ufunc__ = None

    def __init__(self, label, key=None):
        key = key if key is not None else label
        if len(key) > 600:
            # a name that keeps growing is cut to a digest
            key = key[:200] + "#" + hashlib.md5(key.encode()).hexdigest()
        self.label = label if len(label) <= 600 else label[:597] + "..."
        self.key = key
        self.attrs = {}
        self.items = {}

    def __repr__(self):
        s = self.label
        return "<?%s>" % (s if len(s) < 80 else s[:77] + "...")

    def __hash__(self):
        return hash(("unk", self.key))

    def __eq__(self, o):
        return isinstance(o, Unk) and o.key == self.key

    def _b(self, o):
        return Unk("arith(%s,%s)" % (self.label[:40], str(o)[:40]))

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _b
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __matmul__ = __rmatmul__ = _b
    __mod__ = __floordiv__ = __rmod__ = __rfloordiv__ = _b

    def __neg__(self):
        return Unk("neg(%s)" % self.label)


class ModV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<module %s>" % self.name


class ExtV:
    """Entity outside the analysed package (builtin, numpy, jax, ...)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))


class ClassV:
    def __init__(self, name, mod, node, bases, attrs):
        self.name = name
        self.mod = mod
        self.node = node
        self.bases = bases
        self.attrs = attrs
        self._mro = None
        self.qual = "%s.%s" % (mod.name if mod else "?", name)

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def ext_bases(self):
        return [c for c in self.mro() if isinstance(c, ExtV)]

    def issub(self, other):
        return any(c is other or (isinstance(c, ExtV) and c == other) for c in self.mro())

    def __repr__(self):
        return "<class %s>" % self.name


def _c3(cls):
    seqs = []
    for b in cls.bases:
        seqs.append(list(b.mro()) if isinstance(b, ClassV) else [b])
    seqs.append(list(cls.bases))
    res = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return res
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            cand = seqs[0][0]
        res.append(cand)
        for s in seqs:
            if s and s[0] is cand or (s and isinstance(cand, ExtV) and s[0] == cand):
                s.pop(0)


CURRENT = [None]   # the world in which host containers hash abstract objects


class Obj:
    """Abstract instance of a class of the analysed package."""
    _count = 0

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        Obj._count += 1
        self.uid = Obj._count

    def __hash__(self):
        w = CURRENT[0]
        if w is not None:
            return w.host_hash(self)
        return id(self)

    def __eq__(self, o):
        if self is o:
            return True
        w = CURRENT[0]
        if w is not None:
            return w.host_eq(self, o)
        return False

    def __repr__(self):
        nm = self.attrs.get("name")
        if nm is None:
            nm = self.attrs.get("identifier")
        return "<%s%s>" % (self.cls.name, " " + str(nm) if isinstance(nm, (str, int)) else "")


class FuncV:
    def __init__(self, node, mod, closure=None, name=None, cls=None, defaults=None, kwdefaults=None):
        self.node = node
        self.mod = mod
        self.closure = closure
        self.name = name or getattr(node, "name", "<lambda>")
        self.cls = cls
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.attrs = {}
        self.kind = "function"      # function | static | classm | property
        self.setter = None
        self.is_gen = None
        self.owner_qual = None

    def __repr__(self):
        return "<func %s>" % self.name


class BoundM:
    def __init__(self, func, self_v):
        self.func = func
        self.self_v = self_v

    def __eq__(self, o):
        return isinstance(o, BoundM) and o.func is self.func and o.self_v is self.self_v

    def __hash__(self):
        return hash((id(self.func), id(self.self_v)))

    def __repr__(self):
        return "<bound %s of %r>" % (getattr(self.func, "name", self.func), self.self_v)


class HostFn:
    """A python callable standing for a modelled external function."""

    def __init__(self, fn, name="?"):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return "<model %s>" % self.name


class SuperV:
    def __init__(self, cls, self_v):
        self.cls = cls
        self.self_v = self_v


class PropV:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class AbsRaise(Exception):
    """A Python exception raised by the analysed code."""

    def __init__(self, exc, node=None):
        Exception.__init__(self, repr(exc))
        self.exc = exc      # ExcV or Obj
        self.node = node


class ExcV:
    """Instance of a builtin/external exception class."""

    def __init__(self, cls, args=()):
        self.cls = cls      # host class or ExtV
        self.args = tuple(args)
        self.attrs = {}

    def __repr__(self):
        n = self.cls.__name__ if isinstance(self.cls, type) else getattr(self.cls, "name", str(self.cls))
        return "%s(%s)" % (n, ", ".join(map(str, self.args))[:160])
