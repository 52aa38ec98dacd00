"""Abstract evaluator over the syntax tree.

A conditional constant propagation whose state is partitioned by the outcome
of every branch the domain cannot decide.  ``explore`` enumerates the
partitions (bounded); each partition records the conditions under which it is
taken.  No solver is involved: a condition that was already taken is only
recognised by structural equality, everything else is treated as open.
"""
import ast
import builtins as _bi
import itertools
import math
import sys

import numpy as np

from .values import (Term, Sym, App, Unk, ModV, ExtV, ClassV, Obj, FuncV, BoundM, HostFn, SuperV,
                     PropV, AbsRaise, ExcV, Imprecise, mk, is_num, same, free_syms, substitute, CURRENT, vec)
from .loader import loc

sys.setrecursionlimit(60000)


class Infeasible(Exception):
    pass


def eval_bool(key, env):
    from .oracle import eval_bool as eb
    return eb(key, env)


class Event:
    __slots__ = ("kind", "data", "node", "stack")

    def __init__(self, kind, data, node, stack):
        self.kind = kind
        self.data = data
        self.node = node
        self.stack = stack

    def __repr__(self):
        return "Event(%s, %r, %s)" % (self.kind, self.data, loc(self.node) if self.node is not None else "")


class Env:
    __slots__ = ("vars", "parent", "mod", "func", "globals_", "nonlocals", "yields", "cls")

    def __init__(self, mod, parent=None, func=None):
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.func = func
        self.globals_ = None
        self.nonlocals = None
        self.yields = None
        self.cls = None


BRK, CNT = ("break",), ("continue",)
_MISSING = object()

TRANSPARENT_EXT = {
    "functools.lru_cache", "functools.cache", "functools.wraps", "numba.njit", "numba.jit", "jax.jit",
    "abc.abstractmethod", "contextlib.contextmanager", "functools.cached_property", "typing.overload",
    "jax.tree_util.register_pytree_node_class", "numba.vectorize", "numba.cfunc", "numba.types.njit",
    "functools.total_ordering", "typing.final", "deprecated",
}

HOST_NS = {"math": math, "itertools": itertools, "numpy": np}


class World:
    def __init__(self, prog, decisions=(), fmodels=None, emodels=None, max_steps=400000, max_depth=80,
                 loop_unroll=2, generic_iters=1, prefer=None, samples=None):
        self.prog = prog
        self.pre = decisions
        self.trail = []            # list of (key, value)
        self.assumed = {}
        self.events = []
        self.classes = {}
        self.funcs = {}
        self.modns = {}
        self.mod_done = set()
        self.mod_running = set()
        self.fmodels = fmodels or {}
        self.emodels = dict(EXT_MODELS)
        if emodels:
            self.emodels.update(emodels)
        self.steps = 0
        self.max_steps = max_steps
        self.depth = 0
        self.max_depth = max_depth
        self.loop_unroll = loop_unroll
        self.generic_iters = generic_iters
        self.fresh_n = 0
        self.stack = []
        self.prefer = prefer
        self.unsupported = []
        self.touched = set()
        self.forced = []
        self.samples = samples     # parameter points at which terms are compared later
        CURRENT[0] = self

    # ------------------------------------------------------------- utilities
    def fresh(self, label):
        self.fresh_n += 1
        return Unk(label, key="%s#%d" % (label, self.fresh_n))

    def event(self, kind, data, node):
        self.events.append(Event(kind, data, node, tuple(self.stack)))

    def decide(self, key, node=None):
        """Outcome of an undecidable branch condition."""
        neg = False
        while isinstance(key, App) and key.fn in ("not", "ne"):
            neg = not neg
            key = key.args[0] if key.fn == "not" else App("eq", key.args, "bool")
        if key in self.assumed:
            v = self.assumed[key]
        else:
            pts = None
            if self.samples is not None:
                pts = [(s, eval_bool(key, s)) for s in self.samples]
                if pts and pts[0][1] is None:
                    pts = None
                elif pts:
                    got = {r for _, r in pts}
                    if len(got) == 1 and None not in got:
                        v = got.pop()
                        self.assumed[key] = v
                        self.forced.append((key, v))
                        return (not v) if neg else v
            i = len(self.trail)
            if i > 1000:
                raise Imprecise("too many undecidable branches")
            if i < len(self.pre):
                v = self.pre[i]
            else:
                v = True
                if self.prefer is not None:
                    p = self.prefer(key, node)
                    if p is not None:
                        v = (not p) if neg else p
            self.trail.append((key, v, node))
            self.assumed[key] = v
            if pts is not None:
                self.samples = [s for s, r in pts if r is None or r == v]
        return (not v) if neg else v

    def host_hash(self, obj):
        f, _ = obj.cls.lookup("__hash__")
        if isinstance(f, FuncV):
            try:
                h = self.call(BoundM(f, obj), [], {}, None)
                return hash(h)
            except (AbsRaise, Imprecise):
                return id(obj)
        return id(obj)

    def host_eq(self, a, b):
        f, _ = a.cls.lookup("__eq__")
        if isinstance(f, FuncV):
            try:
                return bool(self.truth(self.call(BoundM(f, a), [b], {}, None)))
            except (AbsRaise, Imprecise):
                return False
        return a is b

    # ------------------------------------------------------------ modules
    def modget(self, modname, name, node=None):
        ns = self.modns.setdefault(modname, {})
        if name in ns:
            return ns[name]
        ent = self.prog.resolve(modname, name)
        if ent is None:
            return _MISSING
        v = self.entity(ent, name)
        if v is not _MISSING and ent[0] != "assign":
            ns[name] = v
        return v

    def entity(self, ent, name):
        kind = ent[0]
        if kind == "def":
            return self.get_func(ent[1], ent[2])
        if kind == "class":
            return self.get_class(ent[1], ent[2])
        if kind == "module":
            return ModV(ent[1])
        if kind == "ext":
            return self.ext(ent[1])
        if kind == "assign":
            mod = ent[1]
            self.run_module(mod, ent[2])
            ns = self.modns.setdefault(mod.name, {})
            # find the defining name in that module
            if name in ns:
                return ns[name]
            for k, e in mod.table.items():
                if e[0] == "assign" and e[1] is ent[2] and k in ns and k == name:
                    return ns[k]
            # imported under an alias
            for k, e in mod.table.items():
                if e[0] == "assign" and e[1] is ent[2] and k in ns:
                    return ns[k]
            return Unk("%s.%s" % (mod.name, name))
        return _MISSING

    def ext(self, dotted):
        if dotted in CONST_EXT:
            return CONST_EXT[dotted]
        if dotted.startswith("math.") or dotted.startswith("numpy."):
            parts = dotted.split(".")
            try:
                o = HOST_NS[parts[0]]
                for p in parts[1:]:
                    o = getattr(o, p)
                if isinstance(o, (int, float, complex)):
                    return o
            except AttributeError:
                pass
        return ExtV(dotted)

    def run_module(self, mod, want=None):
        """Evaluate the module-level assignments that bind the wanted names."""
        if mod.name in self.mod_done or mod.name in self.mod_running:
            return
        self.mod_running.add(mod.name)
        env = Env(mod)
        env.vars = self.modns.setdefault(mod.name, {})
        saved = self.stack
        self.stack = ["<module %s>" % mod.name]
        try:
            rebound = {t.id for st in mod.tree.body if isinstance(st, ast.Assign) for t in st.targets if isinstance(t, ast.Name)}
            for st in mod.tree.body:
                if isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    # a definition matters in sequence only when a later statement binds its name again
                    if isinstance(st, ast.FunctionDef) and st.name in rebound:
                        env.vars[st.name] = self.get_func(mod, st)
                    continue
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                try:
                    self.exec(st, env)
                except (AbsRaise, Imprecise) as e:
                    self.unsupported.append((loc(st), repr(e)))
                    for n in ast.walk(st):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in env.vars:
                            env.vars[n.id] = Unk("%s.%s" % (mod.name, n.id))
        finally:
            self.stack = saved
        self.mod_running.discard(mod.name)
        self.mod_done.add(mod.name)

    def get_func(self, mod, node, closure=None, cls=None):
        if closure is None and node in self.funcs:
            return self.funcs[node]
        env = closure or Env(mod)
        f = self.make_func(node, mod, env, cls)
        if closure is None:
            self.funcs[node] = f
        return f

    def make_func(self, node, mod, env, cls):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwdefaults = {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f = FuncV(node, mod, env if env.parent is not None or env.func is not None or env.cls is not None else None,
                  getattr(node, "name", "<lambda>"), cls, defaults, kwdefaults)
        f.closure = env
        res = f
        for dec in reversed(getattr(node, "decorator_list", [])):
            res = self.decorate(dec, res, env, f)
        return res

    def decorate(self, dec, val, env, f):
        name = dotted_name(dec.func if isinstance(dec, ast.Call) else dec)
        if name in ("property", "functools.cached_property", "cached_property") and isinstance(val, FuncV):
            return PropV(val)
        if name == "staticmethod":
            if isinstance(val, FuncV):
                val.kind = "static"
            return val
        if name == "classmethod":
            if isinstance(val, FuncV):
                val.kind = "classm"
            return val
        if name.endswith(".setter") and isinstance(val, FuncV):
            base = None
            e = env
            if e is not None and name.split(".")[0] in e.vars:
                base = e.vars[name.split(".")[0]]
            if isinstance(base, PropV):
                return PropV(base.fget, val)
            return PropV(None, val)
        m = self.fmodels.get("decor:" + name.split(".")[-1])
        if m is not None:
            return m(self, dec, val, env, f)
        if isinstance(val, FuncV):
            val.attrs.setdefault("__decorators__", []).append(name)
        return val

    def get_class(self, mod, node, env=None):
        if env is None and node in self.classes:
            return self.classes[node]
        cenv = Env(mod, parent=env)
        bases = []
        for b in node.bases:
            v = self.eval(b, env or Env(mod))
            if isinstance(v, (ClassV, ExtV)):
                bases.append(v)
            elif isinstance(v, Unk):
                bases.append(ExtV("unknown." + v.label))
        c = ClassV(node.name, mod, node, bases, {})
        c.is_dataclass = any(dotted_name(d.func if isinstance(d, ast.Call) else d).split(".")[-1] == "dataclass"
                             for d in node.decorator_list)
        c.is_namedtuple = any(isinstance(b, ExtV) and b.name.endswith("NamedTuple") for b in bases)
        c.is_enum = any(isinstance(b, ExtV) and b.name.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag")
                        for b in bases)
        c.fields = []
        if env is None:
            self.classes[node] = c
        cenv.vars = c.attrs
        cenv.cls = c
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fenv = Env(mod, parent=env)
                fenv.vars = c.attrs      # decorators/defaults see the class namespace
                fenv.cls = c
                f = self.make_func(st, mod, fenv, c)
                inner = f.fget if isinstance(f, PropV) else f
                for g in ([f.fget, f.fset] if isinstance(f, PropV) else [f]):
                    if isinstance(g, FuncV) and g.node is st:
                        g.closure = env
                        g.cls = c
                c.attrs[st.name] = f
            elif isinstance(st, ast.ClassDef):
                c.attrs[st.name] = self.get_class(mod, st, cenv)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name):
                    c.fields.append((st.target.id, st.value))
                    if st.value is not None:
                        c.attrs[st.target.id] = self.eval(st.value, cenv)
            else:
                try:
                    self.exec(st, cenv)
                except (AbsRaise, Imprecise) as e:
                    self.unsupported.append((loc(st), repr(e)))
        if c.is_enum:
            for k, v in list(c.attrs.items()):
                if not isinstance(v, (FuncV, PropV, ClassV)) and not k.startswith("_"):
                    o = Obj(c, {"name": k, "value": v})
                    c.attrs[k] = o
        return c

    def lookup(self, modname, name):
        v = self.modget(modname, name)
        if v is _MISSING:
            raise LookupError("%s.%s" % (modname, name))
        return v

    # ------------------------------------------------------------ names
    def load_name(self, name, env, node):
        e = env
        if e.globals_ and name in e.globals_:
            v = self.modget(e.mod.name, name)
            if v is not _MISSING:
                return v
        first = True
        while e is not None:
            # a class namespace is only visible to its own body, not to nested functions
            if name in e.vars and (first or e.cls is None):
                return e.vars[name]
            first = False
            e = e.parent
        if env.mod is not None:
            v = self.modget(env.mod.name, name)
            if v is not _MISSING:
                return v
        if name == "__name__":
            return env.mod.name
        if name == "__file__":
            return env.mod.path
        if hasattr(_bi, name):
            if name in ("None", "True", "False", "NotImplemented", "Ellipsis"):
                return getattr(_bi, name)
            return ExtV("builtins." + name)
        raise AbsRaise(ExcV(UnboundLocalError if name in self.locals_of(env) else NameError, (name,)), node)

    def locals_of(self, env):
        """The names the function of an environment binds."""
        fn = getattr(env.func, "node", None)
        if fn is None:
            return ()
        return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def store_name(self, name, v, env):
        if env.globals_ and name in env.globals_:
            self.modns.setdefault(env.mod.name, {})[name] = v
            return
        if env.nonlocals and name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    # ------------------------------------------------------------ truth / eq
    def truth(self, v, node=None):
        if v is None or isinstance(v, (bool, int, float, complex, str, list, tuple, dict, set, frozenset, range,
                                       np.bool_, np.number, bytes)):
            return bool(v)
        if isinstance(v, Term):
            if v.kind == "bool":
                return self.decide(v, node)
            return not self.decide(App("eq", (v, 0), "bool"), node)
        if isinstance(v, Unk):
            return self.decide(App("truth", (v,), "bool"), node)
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(BoundM(f, v), [], {}, node), node)
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(BoundM(f, v), [], {}, node), node)
            if "__items__" in v.attrs:
                return bool(v.attrs["__items__"])
            return True
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return self.truth(v.ravel()[0], node)
            raise AbsRaise(ExcV(ValueError, ("ambiguous truth value",)), node)
        return True

    def eq(self, a, b, node=None):
        """Abstract equality: host bool or a bool term."""
        if a is b and not isinstance(a, (float, np.ndarray)):
            return True
        if isinstance(a, Unk) or isinstance(b, Unk):
            if isinstance(a, Unk) and isinstance(b, Unk) and a.key == b.key:
                return True
            x, y = (a, b) if isinstance(a, Unk) else (b, a)
            return App("eq", (x, y), "bool")
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    f, _ = x.cls.lookup("__eq__")
                    if f is not None:
                        r = self.call(BoundM(f, x), [y], {}, node)
                        if r is not NotImplemented:
                            return r
                    elif getattr(x.cls, "is_dataclass", False) and isinstance(y, Obj) and y.cls is x.cls:
                        return all(self.truth(self.eq(x.attrs.get(k), y.attrs.get(k)), node) for k, _ in x.cls.fields)
            return a is b
        if isinstance(a, Term) or isinstance(b, Term):
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
                return np.array([self.eq(x, y) for x, y in zip(aa.ravel(), bb.ravel())], dtype=object).reshape(aa.shape)
            if same(a, b):
                return True
            if (isinstance(a, Term) or is_num(a)) and (isinstance(b, Term) or is_num(b)):
                if isinstance(a, Term):
                    return mk("eq", a, b)
                return mk("eq", b, a)
            kinds = {getattr(x, "kind", None) for x in (a, b)}
            if "str" in kinds and (isinstance(a, str) or isinstance(b, str)):
                return App("eq", (a, b) if isinstance(a, Term) else (b, a), "bool")
            return False
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                r = self.eq(x, y, node)
                if not self.truth(r, node):
                    return False
            return True
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            try:
                return a == b
            except Exception:
                return self.fresh("array-eq")
        try:
            return a == b
        except Exception:
            return a is b

    def contains(self, x, c, node):
        if isinstance(c, Unk):
            return self.decide(App("in", (x if hashable(x) else Unk(str(x)), c), "bool"), node)
        if isinstance(c, Obj):
            f, _ = c.cls.lookup("__contains__")
            if f is not None:
                return self.truth(self.call(BoundM(f, c), [x], {}, node), node)
            if "__items__" in c.attrs:
                return self.contains(x, c.attrs["__items__"], node)
            return any(self.truth(self.eq(x, y), node) for y in self.iterate(c, node))
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, Unk):
                return self.decide(App("in", (x, c), "bool"), node)
            if isinstance(x, Term) and x.kind == "str":
                return self.decide(App("in", (x, c), "bool"), node)
            raise AbsRaise(ExcV(TypeError, ("in <string>",)), node)
        if isinstance(c, ClassV) and c.is_enum:
            return any(x is v for v in c.attrs.values())
        if isinstance(c, (dict, set, frozenset)):
            if isinstance(x, (Unk,)):
                if not any(isinstance(k, Unk) for k in c) and not c:
                    return False
                if any(k is x or (isinstance(k, Unk) and k.key == x.key) for k in c):
                    return True
                return self.decide(App("in", (x, frozenset(map(str, c))), "bool"), node)
            try:
                return x in c
            except TypeError:
                raise AbsRaise(ExcV(TypeError, ("unhashable",)), node)
        if isinstance(c, (list, tuple, range)) or hasattr(c, "__iter__"):
            for y in list(c) if not isinstance(c, (list, tuple, range)) else c:
                if x is y:
                    return True
                r = self.eq(x, y, node)
                if isinstance(r, np.ndarray):
                    r = all(self.truth(z) for z in r.ravel())
                if self.truth(r, node):
                    return True
            return False
        return self.decide(App("in", (Unk(str(x)), Unk(str(c))), "bool"), node)

    # ------------------------------------------------------------ iteration
    def iterate(self, v, node=None):
        if isinstance(v, (list, tuple, range, str, dict, set, frozenset, bytes)):
            return list(v)
        if isinstance(v, np.ndarray):
            return list(v)
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                r = self.call(BoundM(f, v), [], {}, node)
                if r is v:
                    nx, _ = v.cls.lookup("__next__")
                    out = []
                    for _ in range(300):
                        try:
                            out.append(self.call(BoundM(nx, v), [], {}, node))
                        except AbsRaise as e:
                            if isinstance(e.exc, ExcV) and e.exc.cls is StopIteration:
                                break
                            raise
                    return out
                return self.iterate(r, node)
            if "__items__" in v.attrs:
                return list(v.attrs["__items__"])
            g, _ = v.cls.lookup("__getitem__")
            ln, _ = v.cls.lookup("__len__")
            if g is not None and ln is not None:
                n = self.call(BoundM(ln, v), [], {}, node)
                if isinstance(n, int):
                    return [self.call(BoundM(g, v), [i], {}, node) for i in range(n)]
            if g is not None:
                out = []
                for i in range(200):
                    try:
                        out.append(self.call(BoundM(g, v), [i], {}, node))
                    except AbsRaise as e:
                        if isinstance(e.exc, ExcV) and e.exc.cls in (IndexError, StopIteration):
                            break
                        raise
                return out
            raise AbsRaise(ExcV(TypeError, ("%s not iterable" % v.cls.name,)), node)
        if isinstance(v, Unk):
            return [self.unk_item(v, i) for i in range(self.generic_iters)]
        if isinstance(v, Term):
            raise AbsRaise(ExcV(TypeError, ("not iterable",)), node)
        if isinstance(v, ClassV) and v.is_enum:
            return [x for x in v.attrs.values() if isinstance(x, Obj)]
        if hasattr(v, "__iter__") and not isinstance(v, (ExtV, FuncV, ModV, ClassV)):
            out = []
            for i, x in enumerate(v):
                out.append(x)
                if i > 5000:
                    raise Imprecise("long iteration at %s" % (loc(node) if node is not None else ""))
            return out
        if v is None or is_num(v):
            raise AbsRaise(ExcV(TypeError, ("%r not iterable" % (v,),)), node)
        return [self.fresh("elem(%s)" % v)]

    def unk_item(self, u, i):
        k = "it%s" % (i,)
        if k not in u.items:
            u.items[k] = Unk("%s[*%s]" % (u.label, i or ""), key="%s[*%s]" % (u.key, i or ""))
        return u.items[k]

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, node=None):
        if isinstance(v, Obj):
            c, owner = v.cls.lookup(name)
            if isinstance(c, PropV):
                if c.fget is None:
                    return self.fresh("prop %s" % name)
                return self.call(BoundM(c.fget, v), [], {}, node)
            if name in v.attrs:
                return v.attrs[name]
            if c is not None or owner is not None:
                return self.bind(c, v)
            if name == "__class__":
                return v.cls
            if name == "__dict__":
                return v.attrs
            if "__items__" in v.attrs:
                return self.host_method(v.attrs["__items__"], name, node)
            if "__payload__" in v.attrs:
                return self.getattr(v.attrs["__payload__"], name, node)
            ga, _ = v.cls.lookup("__getattr__")
            if ga is not None:
                return self.call(BoundM(ga, v), [name], {}, node)
            hb = self.host_base(v.cls)
            if hb is not None:
                return self.host_obj_method(v, hb, name, node)
            ex = [b for b in v.cls.ext_bases() if b.name not in ("builtins.object", "abc.ABC", "typing.Generic", "enum.Enum")]
            if ex and not any(b.name.startswith("builtins.") and issubclass(getattr(_bi, b.name[9:], object), BaseException) for b in ex):
                return Unk("%s.%s" % (v, name), key="obj%d.%s" % (v.uid, name))
            if name in ("__eq__", "__hash__", "__init__", "__setattr__", "__repr__", "__str__"):
                return HostFn(lambda w, a, k, n: None, "object." + name)
            if name in ("with_traceback",):
                return HostFn(lambda w, a, k, n: v, name)
            raise AbsRaise(ExcV(AttributeError, ("%s has no attribute %s" % (v.cls.name, name),)), node)
        if isinstance(v, ClassV):
            if name in ("__name__", "__qualname__"):
                return v.name
            if name == "__members__" and v.is_enum:
                return {k: x for k, x in v.attrs.items() if isinstance(x, Obj)}
            c, owner = v.lookup(name)
            if owner is not None:
                if isinstance(c, FuncV) and c.kind == "classm":
                    return BoundM(c, v)
                return c
            if name == "__mro__":
                return tuple(v.mro())
            if name == "__init__":
                return HostFn(lambda w, a, k, n: None, "object.__init__")
            if name == "__setattr__":
                return ExtV("builtins.object.__setattr__")
            if name in ("__doc__", "__module__"):
                return None
            if any(not b.name.startswith("builtins.object") for b in v.ext_bases()):
                return Unk("%s.%s" % (v.name, name))
            raise AbsRaise(ExcV(AttributeError, ("type %s has no attribute %s" % (v.name, name),)), node)
        if isinstance(v, ModV):
            r = self.modget(v.name, name, node)
            if r is not _MISSING:
                return r
            if v.name + "." + name in self.prog.modules:
                return ModV(v.name + "." + name)
            return Unk("%s.%s" % (v.name, name))
        if isinstance(v, SuperV):
            mro = v.self_v.cls.mro() if isinstance(v.self_v, Obj) else v.self_v.mro()
            try:
                i = mro.index(v.cls)
            except ValueError:
                i = -1
            for c in mro[i + 1:]:
                if isinstance(c, ClassV) and name in c.attrs:
                    x = c.attrs[name]
                    if isinstance(x, PropV):
                        return self.call(BoundM(x.fget, v.self_v), [], {}, node)
                    return self.bind(x, v.self_v)
            if name == "__setattr__":
                return HostFn(lambda w, a, k, n: v.self_v.attrs.__setitem__(a[0], a[1]), "object.__setattr__")
            if name == "__getattribute__":
                return HostFn(lambda w, a, k, n: w.getattr(v.self_v, a[0], n), "object.__getattribute__")
            if name == "__new__":
                return HostFn(lambda w, a, k, n: Obj(a[0]) if a and isinstance(a[0], ClassV) else w.fresh("new"), "object.__new__")
            if name == "__init__":
                hb = self.host_base(v.self_v.cls) if isinstance(v.self_v, Obj) else None
                if hb is not None:
                    return HostFn(lambda w, a, k, n: w.host_base_init(v.self_v, hb, a, k, n), "super.__init__")
                def _init(w, a, k, n):
                    if isinstance(v.self_v, Obj):
                        v.self_v.attrs.setdefault("args", tuple(a))
                        w.event("ext-init", (v.self_v, [b.name for b in v.self_v.cls.ext_bases()], a, k), n)
                    return None
                return HostFn(_init, "super.__init__")
            hb = self.host_base(v.self_v.cls) if isinstance(v.self_v, Obj) else None
            if hb is not None:
                return self.host_obj_method(v.self_v, hb, name, node)
            if name == "__eq__":
                return HostFn(lambda w, a, k, n: v.self_v is a[0], "object.__eq__")
            if name == "__hash__":
                return HostFn(lambda w, a, k, n: id(v.self_v), "object.__hash__")
            return self.fresh("super.%s" % name)
        if isinstance(v, FuncV):
            if name in v.attrs:
                return v.attrs[name]
            if name in ("__name__", "__qualname__"):
                return v.name
            if name == "__doc__":
                return None
            if name == "__module__":
                return v.mod.name
            if name == "__code__":
                return Unk("%s.__code__" % v.name)
            if name == "__wrapped__":
                raise AbsRaise(ExcV(AttributeError, (name,)), node)
            if name == "__defaults__":
                return tuple(v.defaults)
            if name == "__kwdefaults__":
                return dict(v.kwdefaults)
            if name == "__annotations__":
                return {}
            if name == "__get__":
                return HostFn(lambda w, a, k, n: BoundM(v, a[0]), "__get__")
            raise AbsRaise(ExcV(AttributeError, ("function has no attribute %s" % name,)), node)
        if isinstance(v, BoundM):
            if name == "__self__":
                return v.self_v
            if name == "__func__":
                return v.func
            return self.getattr(v.func, name, node)
        if isinstance(v, PropV):
            if name in ("setter", "getter", "deleter"):
                return HostFn(lambda w, a, k, n: PropV(v.fget, a[0]) if name == "setter" else v, "property." + name)
            if name in ("fget",):
                return v.fget
            if name in ("fset",):
                return v.fset
        if isinstance(v, ExtV):
            full = v.name + "." + name
            return self.ext(full)
        if isinstance(v, Unk):
            if name not in v.attrs:
                v.attrs[name] = Unk("%s.%s" % (v.label, name), key="%s.%s" % (v.key, name))
            return v.attrs[name]
        if isinstance(v, ExcV):
            if name == "args":
                return v.args
            if name in v.attrs:
                return v.attrs[name]
            if name in ("with_traceback", "add_note"):
                return HostFn(lambda w, a, k, n: v, name)
            if name == "__class__":
                return ExtV("builtins." + v.cls.__name__) if isinstance(v.cls, type) else v.cls
            return None if name.startswith("__") else Unk("exc." + name)
        if isinstance(v, Term):
            return self.term_attr(v, name, node)
        if isinstance(v, HostFn):
            if name == "__name__":
                return v.name
            if name == "__self__":
                return getattr(v, "self_v", None)
            return Unk("%s.%s" % (v.name, name))
        return self.host_method(v, name, node)

    def term_attr(self, t, name, node):
        if name == "real":
            return mk("real", t)
        if name == "imag":
            return mk("imag", t)
        if name in ("conjugate", "conj"):
            return HostFn(lambda w, a, k, n: mk("conj", t), name)
        if name == "item":
            return HostFn(lambda w, a, k, n: t, name)
        if name == "free_symbols":
            if t.kind in ("expr", "symbol"):
                return set(s for s in free_syms(t))
            raise AbsRaise(ExcV(AttributeError, (name,)), node)
        if name in ("subs", "evalf", "astype", "n", "simplify", "doit", "expand"):
            def _m(w, a, k, n):
                if name == "subs" and a and isinstance(a[0], dict):
                    return substitute(t, {(x.name if isinstance(x, Sym) else str(x)): y for x, y in a[0].items()})
                return t
            return HostFn(_m, name)
        if name == "name" and isinstance(t, Sym):
            return t.name
        if name in ("dtype", "aval", "shape", "size"):
            if t.kind == "float":
                raise AbsRaise(ExcV(AttributeError, (name,)), node)
            if name == "shape":
                return ()
            return Unk("%s.%s" % (t, name))
        if name == "is_integer":
            return HostFn(lambda w, a, k, n: App("is_integer", (t,), "bool"), name)
        if t.kind in ("expr", "symbol", "tracer", "opaque"):
            return Unk("%s.%s" % (t, name))
        raise AbsRaise(ExcV(AttributeError, ("float has no attribute %s" % name,)), node)

    def host_method(self, v, name, node):
        if isinstance(v, np.ndarray) and name in ("shape", "size", "ndim", "T", "dtype", "flat"):
            if name == "dtype":
                return v.dtype
            return getattr(v, name) if name != "flat" else list(v.ravel())
        if isinstance(v, np.ndarray) and name == "at":
            return AtRef(v)
        try:
            m = getattr(v, name)
        except AttributeError:
            raise AbsRaise(ExcV(AttributeError, ("%s object has no attribute %s" % (type(v).__name__, name),)), node)
        if not callable(m):
            return m
        h = HostFn(lambda w, a, k, n: w.call_host_method(v, name, m, a, k, n), "%s.%s" % (type(v).__name__, name))
        h.self_v = v
        return h

    def host_base(self, cls):
        for b in cls.mro():
            if isinstance(b, ExtV) and b.name in ("builtins.dict", "builtins.list", "builtins.set", "builtins.tuple",
                                                  "collections.OrderedDict", "collections.UserDict",
                                                  "collections.UserList", "collections.abc.MutableMapping"):
                return "dict" if ("dict" in b.name.lower() or "Mapping" in b.name) else b.name.split(".")[-1].replace("UserList", "list")
        return None

    def host_payload(self, obj, hb):
        if "__items__" not in obj.attrs:
            obj.attrs["__items__"] = {"dict": dict, "list": list, "set": set, "tuple": tuple}[hb]()
        return obj.attrs["__items__"]

    def host_base_init(self, obj, hb, a, k, n):
        p = self.host_payload(obj, hb)
        if hb == "dict":
            if a:
                src = a[0]
                if isinstance(src, Obj) and "__items__" in src.attrs:
                    src = src.attrs["__items__"]
                if isinstance(src, dict):
                    p.update(src)
                elif isinstance(src, (list, tuple)):
                    p.update(dict(src))
            p.update(k)
        elif hb == "list" and a:
            p.extend(self.iterate(a[0], n))
        elif hb == "tuple" and a:
            obj.attrs["__items__"] = tuple(self.iterate(a[0], n))
        return None

    def host_obj_method(self, obj, hb, name, node):
        p = self.host_payload(obj, hb)
        if name == "__init__":
            return HostFn(lambda w, a, k, n: w.host_base_init(obj, hb, a, k, n), "init")
        m = getattr(p, name, None)
        if m is None:
            raise AbsRaise(ExcV(AttributeError, (name,)), node)
        return HostFn(lambda w, a, k, n: w.call_host_method(w.host_payload(obj, hb), name,
                                                            getattr(w.host_payload(obj, hb), name), a, k, n), name)

    def bind(self, x, obj):
        if isinstance(x, FuncV):
            if x.kind == "static":
                return x
            if x.kind == "classm":
                return BoundM(x, obj.cls if isinstance(obj, Obj) else obj)
            return BoundM(x, obj)
        if isinstance(x, HostFn) and getattr(x, "method", False):
            return HostFn(lambda w, a, k, n: x.fn(w, [obj] + list(a), k, n), x.name)
        return x

    def setattr(self, v, name, val, node=None, raw=False):
        if isinstance(v, Obj):
            c, owner = v.cls.lookup(name)
            if isinstance(c, PropV) and not raw:
                if c.fset is None:
                    raise AbsRaise(ExcV(AttributeError, ("can't set %s" % name,)), node)
                self.call(BoundM(c.fset, v), [val], {}, node)
                return
            if not raw:
                sa, _ = v.cls.lookup("__setattr__")
                if isinstance(sa, FuncV):
                    self.call(BoundM(sa, v), [name, val], {}, node)
                    return
            if name == "__class__" and isinstance(val, ClassV):
                v.cls = val
                return
            v.attrs[name] = val
            return
        if isinstance(v, ClassV):
            v.attrs[name] = val
            return
        if isinstance(v, (FuncV, ExcV)):
            v.attrs[name] = val
            return
        if isinstance(v, BoundM):
            self.setattr(v.func, name, val, node)
            return
        if isinstance(v, ModV):
            self.modns.setdefault(v.name, {})[name] = val
            return
        if isinstance(v, Unk):
            v.attrs[name] = val
            self.event("setattr", (v, name, val), node)
            return
        if isinstance(v, np.ndarray):
            return
        if v is None or isinstance(v, (Term, int, float, str, tuple, list, dict)):
            raise AbsRaise(ExcV(AttributeError, ("%s has no attribute %s" % (type(v).__name__, name),)), node)
        self.event("setattr", (v, name, val), node)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        self.tick(node)
        if isinstance(f, BoundM):
            if isinstance(f.func, FuncV):
                m = self.model_for(f.func)
                if m is not None:
                    r = m(self, [f.self_v] + list(args), kwargs, node, f.func)
                    if r is not _MISSING:
                        return r
                return self.call_func(f.func, [f.self_v] + list(args), kwargs, node)
            return self.call(f.func, [f.self_v] + list(args), kwargs, node)
        if isinstance(f, FuncV):
            m = self.model_for(f)
            if m is not None:
                r = m(self, list(args), kwargs, node, f)
                if r is not _MISSING:
                    return r
            return self.call_func(f, list(args), kwargs, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, HostFn):
            return f.fn(self, args, kwargs, node)
        if isinstance(f, ExtV):
            return self.call_ext(f.name, args, kwargs, node)
        if isinstance(f, Unk):
            self.event("unk-call", (f, list(args), dict(kwargs)), node)
            if f.label.endswith((".conjugate", ".conj", ".item")):
                return self.fresh(f.label + "()")
            return self.fresh("%s()" % f.label)
        if isinstance(f, Obj):
            c, _ = f.cls.lookup("__call__")
            if c is not None:
                return self.call(self.bind(c, f), args, kwargs, node)
            if f.cls.ext_bases():
                return self.fresh("%s()" % f)
            raise AbsRaise(ExcV(TypeError, ("%s not callable" % f.cls.name,)), node)
        if isinstance(f, Term):
            if f.kind in ("opaque", "tracer"):
                self.event("unk-call", (f, list(args), dict(kwargs)), node)
                return self.fresh("%s()" % f)
            raise AbsRaise(ExcV(TypeError, ("not callable",)), node)
        if callable(f) and not isinstance(f, (PropV,)):
            return f(self, args, kwargs, node)
        raise AbsRaise(ExcV(TypeError, ("%r not callable" % (f,),)), node)

    def model_for(self, f):
        if not self.fmodels:
            return None
        m = self.fmodels.get(f.name)
        if m is None and f.cls is not None:
            m = self.fmodels.get(f.cls.name + "." + f.name)
        return m

    def tick(self, node):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Imprecise("step bound reached at %s" % (loc(node) if node is not None else "?"))

    def call_func(self, f, args, kwargs, node):
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise Imprecise("call depth bound reached in %s" % f.name)
        fn = f.node
        self.touched.add(fn)
        env = Env(f.mod, f.closure, f)
        self.bind_args(f, args, kwargs, env, node)
        self.stack.append((f.cls.name + "." if f.cls else "") + f.name)
        try:
            if isinstance(fn, ast.Lambda):
                return self.eval(fn.body, env)
            gen = getattr(fn, "_is_gen", None)
            if gen is None:
                gen = fn._is_gen = is_generator(fn)
            if gen:
                env.yields = []
                self.exec_block(fn.body, env)
                return HostIter(env.yields)
            sig = self.exec_block(fn.body, env)
            if sig is not None and sig[0] == "return":
                return sig[1]
            return None
        finally:
            self.depth -= 1
            self.stack.pop()

    def bind_args(self, f, args, kwargs, env, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        vals = env.vars
        n = len(pos)
        star_unk = [x for x in args if isinstance(x, StarUnk)]
        if star_unk:
            args = [x for x in args if not isinstance(x, StarUnk)]
        for p, v in zip(pos, args):
            if p in kwargs:
                raise AbsRaise(ExcV(TypeError, ("multiple values for %s" % p,)), node)
            vals[p] = v
        if len(args) > n:
            if a.vararg:
                vals[a.vararg.arg] = tuple(args[n:])
            else:
                raise AbsRaise(ExcV(TypeError, ("%s() takes %d positional arguments but %d were given"
                                                % (f.name, n, len(args)),)), node)
        elif a.vararg:
            vals[a.vararg.arg] = ()
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p in vals:
                continue
            if p in kwargs:
                vals[p] = kwargs.pop(p)
            elif star_unk:
                vals[p] = self.fresh("star.%s" % p)
            elif i >= n - nd:
                vals[p] = f.defaults[i - (n - nd)]
            else:
                if kwargs.get("**unk"):
                    vals[p] = self.fresh("kw.%s" % p)
                    continue
                raise AbsRaise(ExcV(TypeError, ("%s() missing required argument %s" % (f.name, p),)), node)
        unk_kw = kwargs.pop("**unk", None)
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                vals[k.arg] = kwargs.pop(k.arg)
            elif k.arg in f.kwdefaults:
                vals[k.arg] = f.kwdefaults[k.arg]
            else:
                raise AbsRaise(ExcV(TypeError, ("%s() missing keyword argument %s" % (f.name, k.arg),)), node)
        if a.kwarg:
            vals[a.kwarg.arg] = unk_kw if (unk_kw is not None and not kwargs) else kwargs
        elif kwargs:
            raise AbsRaise(ExcV(TypeError, ("%s() got unexpected keyword %s" % (f.name, sorted(kwargs)),)), node)

    def instantiate(self, cls, args, kwargs, node):
        m = self.fmodels.get("class:" + cls.name)
        if m is not None:
            r = m(self, args, kwargs, node, cls)
            if r is not _MISSING:
                return r
        if cls.is_enum:
            for v in cls.attrs.values():
                if isinstance(v, Obj) and (v is args[0] or self.truth(self.eq(v.attrs["value"], args[0]))):
                    return v
            raise AbsRaise(ExcV(ValueError, ("%r is not a valid %s" % (args[0], cls.name),)), node)
        new, owner = cls.lookup("__new__")
        if isinstance(new, FuncV):
            o = self.call_func(new, [cls] + list(args), kwargs, node)
            if not isinstance(o, Obj):
                return o
        else:
            o = Obj(cls)
        init, owner = cls.lookup("__init__")
        if init is not None:
            self.call(BoundM(init, o), args, kwargs, node)
        elif getattr(cls, "is_dataclass", False) or getattr(cls, "is_namedtuple", False):
            fields = []
            for c in reversed(cls.mro()):
                if isinstance(c, ClassV):
                    for nm, d in c.fields:
                        if nm not in [x[0] for x in fields]:
                            fields.append((nm, d, c))
            args = list(args)
            for nm, d, c in fields:
                if args:
                    o.attrs[nm] = args.pop(0)
                elif nm in kwargs:
                    o.attrs[nm] = kwargs[nm]
                elif d is not None:
                    v = None
                    if isinstance(d, ast.Call) and dotted_name(d.func).split(".")[-1] == "field":
                        for kw in d.keywords:
                            if kw.arg == "default":
                                v = self.eval(kw.value, Env(c.mod))
                            if kw.arg == "default_factory":
                                v = self.call(self.eval(kw.value, Env(c.mod)), [], {}, node)
                    else:
                        v = self.eval(d, Env(c.mod))
                    o.attrs[nm] = v
                else:
                    raise AbsRaise(ExcV(TypeError, ("missing %s" % nm,)), node)
            pi, _ = cls.lookup("__post_init__")
            if pi is not None:
                self.call(BoundM(pi, o), [], {}, node)
        else:
            hb = self.host_base(cls)
            if hb is not None:
                self.host_base_init(o, hb, args, kwargs, node)
            else:
                o.attrs["args"] = tuple(args)
                if any(b.name not in ("builtins.object", "abc.ABC") for b in cls.ext_bases()):
                    self.event("ext-init", (o, [b.name for b in cls.ext_bases()], args, kwargs), node)
        return o

    # -------------------------------------------------------- host interplay
    def wrap_callable(self, v, node):
        if isinstance(v, (FuncV, BoundM, ClassV, HostFn, ExtV, Obj)):
            return lambda *a, **k: self.call(v, list(a), k, node)
        return v

    def call_host_method(self, v, name, m, args, kwargs, node):
        if name in ("sort",) and isinstance(v, list):
            key = kwargs.get("key")
            kf = self.wrap_callable(key, node) if key is not None else None
            return self.hosttry(lambda: v.sort(key=kf, reverse=bool(kwargs.get("reverse", False))), node, args, v)
        if name == "index" and isinstance(v, (list, tuple)):
            for i, y in enumerate(v):
                if y is args[0] or (self.truth(self.eq(args[0], y, node), node)):
                    return i
            raise AbsRaise(ExcV(ValueError, ("not in list",)), node)
        if name in ("remove",) and isinstance(v, list):
            for i, y in enumerate(v):
                if y is args[0] or self.truth(self.eq(args[0], y, node), node):
                    del v[i]
                    return None
            raise AbsRaise(ExcV(ValueError, ("not in list",)), node)
        if name == "count" and isinstance(v, (list, tuple)):
            return sum(1 for y in v if y is args[0] or self.truth(self.eq(args[0], y, node), node))
        if name == "extend" and isinstance(v, list):
            v.extend(self.iterate(args[0], node))
            return None
        if name == "join" and isinstance(v, str):
            return v.join(str(x) for x in self.iterate(args[0], node))
        if name == "update" and isinstance(v, (dict, set)):
            for a in args:
                if isinstance(a, Unk):
                    continue
                if isinstance(a, Obj) and "__items__" in a.attrs:
                    a = a.attrs["__items__"]
                if isinstance(v, dict) and isinstance(a, dict):
                    v.update(a)
                elif isinstance(v, dict):
                    for kv in self.iterate(a, node):
                        kk = self.iterate(kv, node)
                        v[kk[0]] = kk[1]
                else:
                    for x in self.iterate(a, node):
                        v.add(x)
            if isinstance(v, dict):
                v.update({k: x for k, x in kwargs.items() if k != "**unk"})
            return None
        if isinstance(v, dict) and name == "get":
            k = args[0]
            d = args[1] if len(args) > 1 else kwargs.get("default")
            if isinstance(k, Unk) and k not in v:
                if not v:
                    return d
                return Unk("dictget[%s]" % k.label)
            return self.hosttry(lambda: v.get(k, d), node, args, v)
        if isinstance(v, set) and name in ("union", "intersection", "difference", "issubset", "intersection_update",
                                           "difference_update", "symmetric_difference", "issuperset"):
            args = [set(self.iterate(a, node)) for a in args]
            return self.hosttry(lambda: m(*args), node, args, v)
        if name == "format" and isinstance(v, str):
            return self.hosttry(lambda: v.format(*[str(a) if isinstance(a, (Term, Unk, Obj)) else a for a in args], **kwargs), node, args, v)
        if isinstance(v, (np.ndarray, np.generic)):
            return self.hosttry(lambda: m(*[np_safe(a) for a in args], **{k: np_safe(x) for k, x in kwargs.items()}), node, args, v)
        return self.hosttry(lambda: m(*args, **kwargs), node, args, v)

    def hosttry(self, thunk, node, args=(), v=None):
        try:
            return thunk()
        except (AbsRaise, Imprecise, Infeasible):
            raise
        except (TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, StopIteration,
                OverflowError, ArithmeticError, NotImplementedError, np.exceptions.AxisError) as e:
            if any(has_unk(a) for a in args) or has_unk(v):
                return self.fresh("host-op")
            if isinstance(e, KeyError):
                raise AbsRaise(ExcV(KeyError, e.args), node)
            raise AbsRaise(ExcV(type(e), (str(e),)), node)

    def call_ext(self, name, args, kwargs, node):
        m = self.emodels.get(name)
        if m is not None:
            return m(self, args, kwargs, node)
        if name in TRANSPARENT_EXT:
            if len(args) >= 1 and isinstance(args[0], (FuncV, BoundM, HostFn)):
                return args[0]
            return HostFn(lambda w, a, k, n: a[0], name)
        if name.startswith("builtins."):
            b = getattr(_bi, name[9:], None)
            if isinstance(b, type) and issubclass(b, BaseException):
                return ExcV(b, args)
        if name.startswith("jax.numpy."):
            alt = "numpy." + name[len("jax.numpy."):]
            if not any(has_unk(a) or has_kind(a, "tracer") for a in args):
                m = self.emodels.get(alt)
                if m is not None:
                    return m(self, args, kwargs, node)
                return self.fold_host(alt, args, kwargs, node)
        if name.split(".")[0] in HOST_NS:
            return self.fold_host(name, args, kwargs, node)
        self.event("ext-call", (name, list(args), dict(kwargs)), node)
        u = self.fresh("%s()" % name)
        return u

    def fold_host(self, name, args, kwargs, node):
        parts = name.split(".")
        o = HOST_NS[parts[0]]
        try:
            for p in parts[1:]:
                o = getattr(o, p)
        except AttributeError:
            self.event("ext-call", (name, list(args), dict(kwargs)), node)
            return self.fresh(name + "()")
        short = parts[-1]
        if short in ELEMENTWISE and args and contains_term(args):
            def ap(*x):
                return mk(ELEMENTWISE[short], *x)
            if any(isinstance(a, (np.ndarray, list, tuple)) for a in args):
                arrs = [np.asarray(a, dtype=object) for a in args]
                return np.frompyfunc(lambda *x: ap(*x), len(args), 1)(*arrs)
            return ap(*args)
        if parts[0] == "itertools":
            if has_unk(list(args)) and any(isinstance(a, Unk) for a in args):
                return self.fresh(name)
            its = [self.iterate(a, node) if not is_num(a) else a for a in args]
            if short in ("product", "permutations", "combinations", "chain", "combinations_with_replacement", "islice",
                         "zip_longest", "repeat", "pairwise"):
                kw = dict(kwargs)
                return list(o(*its, **kw))
            return self.fresh(name)
        if has_unk(list(args)) or has_unk(list(kwargs.values())) or any(not host_plain(a) for a in args):
            if short in ("array", "asarray", "zeros", "ones"):
                pass
            self.event("ext-call", (name, list(args), dict(kwargs)), node)
            return self.fresh("%s()" % name)
        if not callable(o):
            return o
        hargs = [np_safe(a) for a in args]
        kw = {k: np_safe(x) for k, x in kwargs.items()}
        if contains_term(hargs):
            kw.pop("dtype", None)
            if short in ("array", "asarray"):
                kw["dtype"] = object
        return self.hosttry(lambda: o(*hargs, **kw), node, args)

    # ------------------------------------------------------------ subscripts
    def getitem(self, v, idx, node=None):
        if isinstance(v, Unk):
            k = ("ix", str(idx))
            if k not in v.items:
                v.items[k] = Unk("%s[%s]" % (v.label, short(idx)), key="%s[%s]" % (v.key, short(idx)))
            return v.items[k]
        if isinstance(v, Obj):
            g, _ = v.cls.lookup("__getitem__")
            if g is not None:
                return self.call(BoundM(g, v), [idx], {}, node)
            if "__items__" in v.attrs:
                return self.getitem(v.attrs["__items__"], idx, node)
            if getattr(v.cls, "is_namedtuple", False) and isinstance(idx, int):
                return list(v.attrs.values())[idx]
            if self.host_base(v.cls):
                return self.getitem(self.host_payload(v, self.host_base(v.cls)), idx, node)
            if v.cls.ext_bases():
                return self.fresh("%s[%s]" % (v, short(idx)))
            raise AbsRaise(ExcV(TypeError, ("%s not subscriptable" % v.cls.name,)), node)
        if isinstance(v, (ExtV, ClassV, FuncV)):
            if isinstance(v, ClassV) and v.is_enum:
                return v.attrs[idx]
            return v
        if isinstance(v, Term):
            if v.kind in ("tracer", "opaque"):
                return App("getitem", (v, idx if hashable(idx) else str(idx)), v.kind)
            raise AbsRaise(ExcV(TypeError, ("not subscriptable",)), node)
        if isinstance(v, dict):
            if isinstance(idx, Unk) and idx not in v:
                return Unk("dictitem[%s]" % idx.label, key="di%s[%s]" % (id(v), idx.key))
            try:
                return v[idx]
            except KeyError:
                if isinstance(v, DefaultDict):
                    v[idx] = self.call(v.factory, [], {}, node)
                    return v[idx]
                if isinstance(idx, Term):
                    return self.fresh("dictitem")
                raise AbsRaise(ExcV(KeyError, (idx,)), node)
            except TypeError:
                raise AbsRaise(ExcV(TypeError, ("unhashable key",)), node)
        if isinstance(idx, Unk) or isinstance(idx, Term):
            if isinstance(v, (list, tuple)) and len(v) == 1:
                return v[0]
            return Unk("item(%s)[%s]" % (short(v), short(idx)))
        if isinstance(idx, slice) and any(isinstance(x, (Unk, Term)) for x in (idx.start, idx.stop, idx.step)):
            return self.fresh("slice(%s)" % short(v))
        if isinstance(v, HostIter):
            raise AbsRaise(ExcV(TypeError, ("generator not subscriptable",)), node)
        return self.hosttry(lambda: v[np_safe(idx) if isinstance(v, np.ndarray) else idx], node, [idx], None)

    def setitem(self, v, idx, val, node=None):
        if isinstance(v, Unk):
            self.event("setitem", (v, idx, val), node)
            v.items[("ix", str(idx))] = val
            return
        if isinstance(v, Obj):
            g, _ = v.cls.lookup("__setitem__")
            if g is not None:
                self.call(BoundM(g, v), [idx, val], {}, node)
                return
            hb = self.host_base(v.cls)
            if hb or "__items__" in v.attrs:
                self.setitem(self.host_payload(v, hb), idx, val, node)
                return
            if v.cls.ext_bases():
                return
            raise AbsRaise(ExcV(TypeError, ("no item assignment",)), node)
        if isinstance(v, dict):
            try:
                v[idx] = val
            except TypeError:
                raise AbsRaise(ExcV(TypeError, ("unhashable",)), node)
            return
        if isinstance(v, list):
            if isinstance(idx, (Unk, Term)):
                self.event("weak-setitem", (v, idx, val), node)
                return
            if isinstance(idx, slice):
                val = self.iterate(val, node)
            return self.hosttry(lambda: v.__setitem__(idx, val), node)
        if isinstance(v, np.ndarray):
            if has_unk(idx):
                return

            def st():
                v[np_safe(idx)] = val
            if isinstance(val, (Term, Unk)) and v.dtype != object:
                raise Imprecise("term stored in numeric array at %s" % (loc(node) if node is not None else ""))
            return self.hosttry(st, node, [idx, val])
        if isinstance(v, (tuple, str)) or v is None:
            raise AbsRaise(ExcV(TypeError, ("no item assignment",)), node)
        self.event("setitem", (v, idx, val), node)

    def delitem(self, v, idx, node=None):
        if isinstance(v, Obj):
            g, _ = v.cls.lookup("__delitem__")
            if g is not None:
                self.call(BoundM(g, v), [idx], {}, node)
                return
            if "__items__" in v.attrs:
                self.delitem(v.attrs["__items__"], idx, node)
            return
        if isinstance(v, Unk) or isinstance(idx, (Unk, Term)):
            return
        self.hosttry(lambda: v.__delitem__(idx), node)

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b, node):
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, np.generic):
                # a numpy scalar hands its plain value to the other operand
                a = a.item()
            d = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "Mod": "mod",
                 "FloorDiv": "floordiv", "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor",
                 "LShift": "lshift", "RShift": "rshift"}[op]
            if isinstance(a, Obj):
                f, _ = a.cls.lookup("__%s__" % d)
                if f is not None:
                    r = self.call(self.bind(f, a), [b], {}, node)
                    if r is not NotImplemented:
                        return r
            if isinstance(b, Obj):
                f, _ = b.cls.lookup("__r%s__" % d)
                if f is not None:
                    r = self.call(self.bind(f, b), [a], {}, node)
                    if r is not NotImplemented:
                        return r
            for x in (a, b):
                if isinstance(x, Obj) and "__items__" in x.attrs:
                    aa = a.attrs["__items__"] if isinstance(a, Obj) and "__items__" in a.attrs else a
                    bb = b.attrs["__items__"] if isinstance(b, Obj) and "__items__" in b.attrs else b
                    return self.binop(op, aa, bb, node)
            if any(isinstance(x, Unk) or (isinstance(x, Obj) and any(
                    y.name not in ("builtins.object", "abc.ABC") for y in x.cls.ext_bases())) for x in (a, b)):
                return self.fresh("%s(%s,%s)" % (op, short(a), short(b)))
            raise AbsRaise(ExcV(TypeError, ("unsupported operand %s" % op,)), node)
        if isinstance(a, Unk) or isinstance(b, Unk):
            if op == "Add" and isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)) and op == "Add":
                return Unk("concat(%s,%s)" % (short(a), short(b)))
            return Unk("%s(%s,%s)" % (op, label(a), label(b)))
        if op == "BitOr" and (isinstance(a, (ClassV, ExtV, tuple)) or a is None) and \
                (isinstance(b, (ClassV, ExtV)) or b is None):
            return (a if isinstance(a, tuple) else (a,)) + (b,)
        if isinstance(a, (ClassV, ExtV)) or isinstance(b, (ClassV, ExtV)):
            return self.fresh("%s(%s,%s)" % (op, short(a), short(b)))
        if isinstance(a, Term) or isinstance(b, Term):
            nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Pow": "pow", "Mod": "mod",
                  "FloorDiv": "floordiv"}.get(op)
            ok = lambda x: isinstance(x, (Term, np.ndarray)) or is_num(x)
            if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
                return App(op.lower(), (a, b), "bool" if op in ("BitAnd", "BitOr") and getattr(a, "kind", getattr(b, "kind", "")) == "bool" else "int")
            if nm and ok(a) and ok(b):
                if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                    return vec(lambda x, y: mk(nm, x, y), a, b)
                return mk(nm, a, b)
            if op == "Mult" and (isinstance(a, (list, tuple, str)) or isinstance(b, (list, tuple, str))):
                return self.fresh("repeat")
            if op == "Mod" and isinstance(a, str):
                return "%s" % a
            raise AbsRaise(ExcV(TypeError, ("unsupported operand %s" % op,)), node)
        if op == "Mod" and isinstance(a, str):
            return self.hosttry(lambda: a % b, node)
        return self.hosttry(lambda: HOSTOPS[op](a, b), node, [a, b])

    def compare(self, op, a, b, node):
        if op == "Is":
            return self.identity(a, b, node)
        if op == "IsNot":
            return not self.identity(a, b, node)
        if op == "In":
            return self.contains(a, b, node)
        if op == "NotIn":
            return not self.contains(a, b, node)
        if op == "Eq":
            if isinstance(a, Obj) or isinstance(b, Obj):
                return self.rich("eq", "eq", a, b, node, lambda: a is b)
            return self.eq(a, b, node)
        if op == "NotEq":
            if isinstance(a, Obj) or isinstance(b, Obj):
                return self.rich("ne", "ne", a, b, node, lambda: self.neg(self.eq(a, b, node)))
            return self.neg(self.eq(a, b, node))
        nm, rn = {"Lt": ("lt", "gt"), "LtE": ("le", "ge"), "Gt": ("gt", "lt"), "GtE": ("ge", "le")}[op]
        if isinstance(a, Obj) or isinstance(b, Obj):
            def fail():
                raise AbsRaise(ExcV(TypeError, ("unorderable",)), node)
            return self.rich(nm, rn, a, b, node, fail)
        if isinstance(a, Unk) or isinstance(b, Unk):
            if op in ("Gt", "GtE"):
                a, b = b, a
            return App({"Lt": "lt", "LtE": "le", "Gt": "lt", "GtE": "le"}[op],
                       (a if hashable(a) else str(a), b if hashable(b) else str(b)), "bool")
        if isinstance(a, Term) or isinstance(b, Term):
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                return self.fresh("arrcmp")
            if not all(isinstance(x, Term) or is_num(x) for x in (a, b)):
                raise AbsRaise(ExcV(TypeError, ("unorderable",)), node)
            if op in ("Gt", "GtE"):
                a, b = b, a
            return mk({"Lt": "lt", "LtE": "le", "Gt": "lt", "GtE": "le"}[op], a, b)
        return self.hosttry(lambda: HOSTOPS[op](a, b), node, [a, b])

    def rich(self, nm, rn, a, b, node, default):
        for x, y, n in ((a, b, nm), (b, a, rn)):
            if isinstance(x, Obj):
                f, _ = x.cls.lookup("__%s__" % n)
                if f is not None:
                    r = self.call(self.bind(f, x), [y], {}, node)
                    if r is not NotImplemented:
                        return r
                elif n == "eq" and "__items__" in x.attrs:
                    y2 = y.attrs["__items__"] if isinstance(y, Obj) and "__items__" in y.attrs else y
                    return self.eq(x.attrs["__items__"], y2, node)
                elif n in ("eq", "ne") and getattr(x.cls, "is_dataclass", False) and isinstance(y, Obj) and y.cls is x.cls:
                    r = all(self.truth(self.eq(x.attrs.get(k), y.attrs.get(k)), node) for k, _ in x.cls.fields)
                    return r if n == "eq" else not r
                elif n == "ne":
                    f, _ = x.cls.lookup("__eq__")
                    if f is not None:
                        r = self.call(self.bind(f, x), [y], {}, node)
                        if r is not NotImplemented:
                            return self.neg(r)
        return default()

    def neg(self, r):
        if isinstance(r, (bool, np.bool_)):
            return not r
        if isinstance(r, Term):
            return App("not", (r,), "bool")
        if isinstance(r, np.ndarray):
            if r.dtype == bool:
                return ~r
            return np.array([self.neg(x) for x in r.ravel()], dtype=object).reshape(r.shape)
        return not self.truth(r)

    def identity(self, a, b, node):
        if isinstance(a, Unk) or isinstance(b, Unk):
            if isinstance(a, Unk) and isinstance(b, Unk) and a.key == b.key:
                return True
            x, y = (a, b) if isinstance(a, Unk) else (b, a)
            return self.decide(App("is", (x, y if hashable(y) else str(y)), "bool"), node)
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a == b
        if isinstance(a, BoundM) and isinstance(b, BoundM):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Term) and isinstance(b, Term):
            return a == b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            return type(a) is type(b) and a == b
        return a is b

    # ------------------------------------------------------------ expressions
    def eval(self, node, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Imprecise("step bound reached at %s" % loc(node))
        return EVAL[type(node)](self, node, env)

    def ev_Constant(self, n, env):
        return n.value

    def ev_Name(self, n, env):
        return self.load_name(n.id, env, n)

    def ev_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr, n)

    def ev_Subscript(self, n, env):
        v = self.eval(n.value, env)
        if isinstance(v, (ClassV, ExtV)) and not (isinstance(v, ClassV) and v.is_enum):
            return v
        return self.getitem(v, self.eval(n.slice, env), n)

    def ev_Slice(self, n, env):
        return slice(*[self.eval(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def ev_Tuple(self, n, env):
        return tuple(self.eval_elts(n.elts, env))

    def ev_List(self, n, env):
        return self.eval_elts(n.elts, env)

    def ev_Set(self, n, env):
        return set(self.eval_elts(n.elts, env))

    def eval_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env), e))
            else:
                out.append(self.eval(e, env))
        return out

    def ev_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.eval(v, env)
                if isinstance(x, Obj) and "__items__" in x.attrs:
                    x = x.attrs["__items__"]
                if isinstance(x, dict):
                    d.update(x)
                continue
            key = self.eval(k, env)
            val = self.eval(v, env)
            try:
                d[key] = val
            except TypeError:
                raise AbsRaise(ExcV(TypeError, ("unhashable",)), n)
        return d

    def ev_BinOp(self, n, env):
        return self.binop(type(n.op).__name__, self.eval(n.left, env), self.eval(n.right, env), n)

    def ev_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        op = type(n.op).__name__
        if op == "Not":
            if isinstance(v, Term) and v.kind == "bool":
                return App("not", (v,), "bool")
            return not self.truth(v, n)
        if isinstance(v, Obj):
            f, _ = v.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if f is not None:
                return self.call(self.bind(f, v), [], {}, n)
            if v.cls.ext_bases():
                return self.fresh("%s(%s)" % (op, v))
            raise AbsRaise(ExcV(TypeError, ("bad operand",)), n)
        if isinstance(v, Unk):
            return Unk("%s(%s)" % (op, v.label))
        if isinstance(v, Term):
            if op == "USub":
                return mk("neg", v)
            if op == "UAdd":
                return v
            if v.kind == "bool":
                return App("not", (v,), "bool")
            return App("invert", (v,), v.kind)
        return self.hosttry(lambda: {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[op](), n, [v])

    def ev_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v, e)
            if isand and not t:
                return v if not isinstance(v, (Term, Unk)) else False
            if not isand and t:
                return v if not (isinstance(v, Term) and v.kind == "bool") else True
        return v

    def ev_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c, env)
            res = self.compare(type(op).__name__, left, right, n)
            if i < len(n.ops) - 1:
                if not self.truth(res, n):
                    return False
            left = right
        return res

    def ev_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env), n.test) else n.orelse, env)

    def ev_Lambda(self, n, env):
        return self.make_func(n, env.mod, env, None)

    def ev_JoinedStr(self, n, env):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, env)
                spec = ""
                if v.format_spec is not None:
                    spec = self.ev_JoinedStr(v.format_spec, env)
                try:
                    if v.conversion == 114:
                        x = repr(x)
                    out.append(format(self.to_str(x, n), spec) if not is_num(x) else format(x, spec))
                except (TypeError, ValueError):
                    out.append(str(x))
        return "".join(out)

    def to_str(self, x, node):
        if isinstance(x, Obj):
            for nm in ("__str__", "__repr__"):
                f, _ = x.cls.lookup(nm)
                if isinstance(f, FuncV):
                    try:
                        r = self.call(BoundM(f, x), [], {}, node)
                        if isinstance(r, str):
                            return r
                    except (AbsRaise, Imprecise):
                        pass
                    return repr(x)
        if isinstance(x, ClassV):
            return x.name
        return str(x)

    def ev_FormattedValue(self, n, env):
        return str(self.eval(n.value, env))

    def ev_Starred(self, n, env):
        return self.eval(n.value, env)

    def ev_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.store_name(n.target.id, v, env)
        return v

    def ev_Await(self, n, env):
        return self.eval(n.value, env)

    def ev_Yield(self, n, env):
        v = self.eval(n.value, env) if n.value is not None else None
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        if e is not None:
            e.yields.append(v)
        return None

    def ev_YieldFrom(self, n, env):
        v = self.eval(n.value, env)
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        if e is not None:
            e.yields.extend(self.iterate(v, n))
        return None

    def ev_Call(self, n, env):
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id == "super" and not n.args:
            e = env
            while e is not None and (e.func is None or e.func.cls is None):
                e = e.parent
            if e is None:
                raise Imprecise("super() outside method")
            first = e.func.node.args.args[0].arg
            return SuperV(e.func.cls, e.vars[first])
        if isinstance(fn, ast.Name) and fn.id in ("locals", "globals") and not n.args:
            return dict(env.vars)
        f = self.eval(fn, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                if isinstance(v, Unk):
                    args.append(StarUnk(v))
                else:
                    args.extend(self.iterate(v, a))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, Obj) and "__items__" in v.attrs:
                    v = v.attrs["__items__"]
                if isinstance(v, dict):
                    kwargs.update(v)
                elif isinstance(v, Unk):
                    kwargs["**unk"] = v
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, n)

    def comp(self, gens, env, emit):
        def rec(i, e):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            for x in self.iterate(self.eval(g.iter, e), g.iter):
                ne = Env(e.mod, e, e.func)
                ne.yields = None
                self.assign(g.target, x, ne)
                if all(self.truth(self.eval(c, ne), c) for c in g.ifs):
                    rec(i + 1, ne)
        ne = Env(env.mod, env, env.func)
        # comprehensions in a class body see the class namespace
        rec(0, ne if env.cls is None else env)

    def ev_ListComp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.eval(n.elt, e)))
        return out

    def ev_SetComp(self, n, env):
        return set(self.ev_ListComp(n, env))

    def ev_GeneratorExp(self, n, env):
        return HostIter(self.ev_ListComp(n, env))

    def ev_DictComp(self, n, env):
        out = {}

        def emit(e):
            k = self.eval(n.key, e)
            out[k] = self.eval(n.value, e)
        self.comp(n.generators, env, emit)
        return out

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            sig = self.exec(st, env)
            if sig is not None:
                return sig
        return None

    def exec(self, st, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Imprecise("step bound reached at %s" % loc(st))
        f = EXEC.get(type(st))
        if f is None:
            raise Imprecise("unsupported statement %s at %s" % (type(st).__name__, loc(st)))
        return f(self, st, env)

    def ex_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value, env)
        return None

    def ex_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)
        return None

    def ex_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)
        return None

    def ex_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env, t)
            self.store_name(t.id, self.augop(st, cur, env), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr, t)
            self.setattr(o, t.attr, self.augop(st, cur, env), t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            cur = self.getitem(o, i, t)
            self.setitem(o, i, self.augop(st, cur, env), t)
        return None

    def augop(self, st, cur, env):
        b = self.eval(st.value, env)
        op = type(st.op).__name__
        if isinstance(cur, Obj):
            d = {"Add": "iadd", "Sub": "isub", "Mult": "imul", "Div": "itruediv", "Pow": "ipow", "Mod": "imod",
                 "FloorDiv": "ifloordiv", "BitAnd": "iand", "BitOr": "ior", "BitXor": "ixor", "LShift": "ilshift",
                 "RShift": "irshift", "MatMult": "imatmul"}[op]
            f, _ = cur.cls.lookup("__%s__" % d)
            if f is not None:
                r = self.call(self.bind(f, cur), [b], {}, st)
                if r is not NotImplemented:
                    return r
        if isinstance(cur, list) and op == "Add":
            cur.extend(self.iterate(b, st))
            return cur
        if isinstance(cur, set) and op == "BitOr" and isinstance(b, set):
            cur |= b
            return cur
        if isinstance(cur, np.ndarray) and not isinstance(b, Unk):
            r = self.binop(op, cur, b, st)
            if isinstance(r, np.ndarray) and r.shape == cur.shape and r.dtype == cur.dtype:
                cur[...] = r
                return cur
            return r
        return self.binop(op, cur, b, st)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Unk):
                for i, e in enumerate(t.elts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.getitem(v, i), env)
                return
            vals = self.iterate(v, t)
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise AbsRaise(ExcV(ValueError, ("not enough values to unpack",)), t)
                parts = vals[:i] + [vals[i:len(vals) - after]] + vals[len(vals) - after:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            if len(vals) != len(t.elts):
                raise AbsRaise(ExcV(ValueError, ("cannot unpack %d values into %d" % (len(vals), len(t.elts)),)), t)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Imprecise("assign target %s" % type(t).__name__)

    def ex_If(self, st, env):
        return self.exec_block(st.body if self.truth(self.eval(st.test, env), st.test) else st.orelse, env)

    def ex_For(self, st, env):
        src = self.eval(st.iter, env)
        it = self.live_iter(src, st)
        count = 0
        broke = False
        for x in it:
            count += 1
            if count > 4000:
                raise Imprecise("loop bound reached at %s" % loc(st))
            self.assign(st.target, x, env)
            sig = self.exec_block(st.body, env)
            if sig is not None:
                if sig is BRK:
                    broke = True
                    break
                if sig is CNT:
                    continue
                return sig
        if not broke and st.orelse:
            return self.exec_block(st.orelse, env)
        return None

    def live_iter(self, src, node):
        if isinstance(src, list):
            def gen():
                i = 0
                while i < len(src):
                    yield src[i]
                    i += 1
            return gen()
        if isinstance(src, (dict, set)):
            def gen2():
                n = len(src)
                for x in list(src):
                    if len(src) != n:
                        raise AbsRaise(ExcV(RuntimeError, ("changed size during iteration",)), node)
                    yield x
            return gen2()
        return self.iterate(src, node)

    def ex_While(self, st, env):
        unk = 0
        count = 0
        while True:
            count += 1
            if count > 4000:
                raise Imprecise("loop bound reached at %s" % loc(st))
            v = self.eval(st.test, env)
            if isinstance(v, (Unk,)) or (isinstance(v, Term)):
                unk += 1
                if unk > self.loop_unroll:
                    break
                key = App("while", (id(st), unk, v if hashable(v) else str(v)), "bool")
                n0 = len(self.trail)
                t = self.decide(key, st.test)
            else:
                n0 = len(self.trail)
                t = self.truth(v, st.test)
            if not t:
                break
            sig = self.exec_block(st.body, env)
            if sig is not None:
                if sig is BRK:
                    return None
                if sig is CNT:
                    continue
                return sig
        if st.orelse:
            return self.exec_block(st.orelse, env)
        return None

    def ex_Return(self, st, env):
        return ("return", self.eval(st.value, env) if st.value is not None else None)

    def ex_Pass(self, st, env):
        return None

    def ex_Break(self, st, env):
        return BRK

    def ex_Continue(self, st, env):
        return CNT

    def ex_Global(self, st, env):
        env.globals_ = (env.globals_ or set()) | set(st.names)
        return None

    def ex_Nonlocal(self, st, env):
        env.nonlocals = (env.nonlocals or set()) | set(st.names)
        return None

    def ex_FunctionDef(self, st, env):
        f = self.make_func(st, env.mod, env, None)
        self.store_name(st.name, f, env)
        return None

    def ex_ClassDef(self, st, env):
        self.store_name(st.name, self.get_class(env.mod, st, env), env)
        return None

    def ex_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval(t.slice, env), t)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj):
                    if t.attr not in o.attrs:
                        raise AbsRaise(ExcV(AttributeError, (t.attr,)), t)
                    del o.attrs[t.attr]
        return None

    def ex_Import(self, st, env):
        for al in st.names:
            full = al.name
            top = full.split(".")[0]
            if al.asname:
                v = ModV(full) if full in self.prog.modules else ExtV(full)
                self.store_name(al.asname, v, env)
            else:
                v = ModV(top) if top in self.prog.modules else ExtV(top)
                self.store_name(top, v, env)
        return None

    def ex_ImportFrom(self, st, env):
        src = env.mod.abs_import(st.module, st.level)
        if src not in self.prog.modules and src.startswith("qrisp.") and "qrisp.algorithms." + src[6:] in self.prog.modules:
            src = "qrisp.algorithms." + src[6:]  # the short names of the algorithms
        for al in st.names:
            if al.name == "*":
                continue
            v = _MISSING
            if src in self.prog.modules:
                v = self.modget(src, al.name, st)
            elif src.split(".")[0] != "qrisp":
                v = self.ext(src + "." + al.name)
            if v is _MISSING:
                raise AbsRaise(ExcV(ImportError, ("cannot import %s from %s" % (al.name, src),)), st)
            self.store_name(al.asname or al.name, v, env)
        return None

    def ex_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur:
                raise AbsRaise(cur[-1], st)
            raise AbsRaise(ExcV(RuntimeError, ("no active exception",)), st)
        v = self.eval(st.exc, env)
        if st.cause is not None:
            self.eval(st.cause, env)
        if isinstance(v, ExtV):
            v = self.call_ext(v.name, [], {}, st)
        elif isinstance(v, ClassV):
            v = self.instantiate(v, [], {}, st)
        if not isinstance(v, (ExcV, Obj)):
            v = ExcV(v if isinstance(v, ExtV) else ExtV(getattr(v, "label", str(v))), ())
        raise AbsRaise(v, st)

    def ex_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env), st.test):
            raise AbsRaise(ExcV(AssertionError, ()), st)
        return None

    def exc_matches(self, exc, hv, node):
        if isinstance(hv, tuple):
            return any(self.exc_matches(exc, h, node) for h in hv)
        if isinstance(hv, ExtV) and hv.name.startswith("builtins."):
            hc = getattr(_bi, hv.name[9:], None)
            if isinstance(exc, ExcV) and isinstance(exc.cls, type):
                return isinstance(hc, type) and issubclass(exc.cls, hc)
            if hc in (Exception, BaseException):
                return True
            if isinstance(exc, Obj):
                for b in exc.cls.ext_bases():
                    if b.name.startswith("builtins."):
                        bc = getattr(_bi, b.name[9:], None)
                        if isinstance(bc, type) and isinstance(hc, type) and issubclass(bc, hc):
                            return True
            return False
        if isinstance(hv, ClassV):
            return isinstance(exc, Obj) and exc.cls.issub(hv)
        if isinstance(hv, ExtV):
            if isinstance(exc, ExcV) and isinstance(exc.cls, ExtV):
                return exc.cls == hv
            return False
        return False

    def ex_Try(self, st, env):
        if env.func is None and env.cls is None:
            imp = [n for n in st.body if isinstance(n, (ast.Import, ast.ImportFrom))]
            if imp and any(isinstance(n, ast.FunctionDef) for h in st.handlers for n in h.body):
                return None       # optional third-party import with a local fallback
        try:
            try:
                sig = self.exec_block(st.body, env)
            except AbsRaise as e:
                for h in st.handlers:
                    hv = self.eval(h.type, env) if h.type is not None else ExtV("builtins.BaseException")
                    if self.exc_matches(e.exc, hv, h):
                        if h.name:
                            self.store_name(h.name, e.exc, env)
                        if not hasattr(self, "cur_exc"):
                            self.cur_exc = []
                        self.cur_exc.append(e.exc)
                        try:
                            sig = self.exec_block(h.body, env)
                        finally:
                            self.cur_exc.pop()
                        break
                else:
                    raise
            else:
                if sig is None and st.orelse:
                    sig = self.exec_block(st.orelse, env)
        except AbsRaise:
            fs = self.exec_block(st.finalbody, env)
            if fs is not None:
                return fs
            raise
        fs = self.exec_block(st.finalbody, env)
        return fs if fs is not None else sig

    def ex_With(self, st, env):
        return self._with(st.items, 0, st, env)

    def _with(self, items, i, st, env):
        if i == len(items):
            return self.exec_block(st.body, env)
        it = items[i]
        cm = self.eval(it.context_expr, env)
        ent = self.with_enter(cm, st)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ent, env)
        try:
            sig = self._with(items, i + 1, st, env)
        except AbsRaise as e:
            cls = e.exc.cls if isinstance(e.exc, (ExcV, Obj)) else Unk("exc")
            if isinstance(cls, type):
                cls = ExtV("builtins." + cls.__name__)
            if self.truth(self.with_exit(cm, [cls, e.exc, Unk("tb")], st), st):
                return None
            raise
        self.with_exit(cm, [None, None, None], st)
        return sig

    def with_enter(self, cm, node):
        if isinstance(cm, Obj):
            f, _ = cm.cls.lookup("__enter__")
            if f is not None:
                return self.call(self.bind(f, cm), [], {}, node)
        self.event("with-enter", cm, node)
        if isinstance(cm, HostIter):
            return cm.data[0] if cm.data else None
        return Unk("enter(%s)" % label(cm))

    def with_exit(self, cm, args, node):
        if isinstance(cm, Obj):
            f, _ = cm.cls.lookup("__exit__")
            if f is not None:
                return self.call(self.bind(f, cm), args, {}, node)
        self.event("with-exit", cm, node)
        return False

    def ex_Match(self, st, env):
        subj = self.eval(st.subject, env)
        for c in st.cases:
            if self.match(c.pattern, subj, env, st) and (c.guard is None or self.truth(self.eval(c.guard, env), c.guard)):
                return self.exec_block(c.body, env)
        return None

    def match(self, p, v, env, node):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.eval(p.value, env)), node)
        if isinstance(p, ast.MatchSingleton):
            return self.identity(v, p.value, node)
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env, node) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env, node):
                return False
            if p.name:
                self.store_name(p.name, v, env)
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(bi_isinstance(self, [v, self.eval(p.cls, env)], {}, node), node)
        raise Imprecise("match pattern")


class StarUnk:
    def __init__(self, v):
        self.v = v


class HostIter:
    """Eagerly evaluated generator."""

    def __init__(self, data):
        self.data = list(data)
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.data):
            raise StopIteration
        self.i += 1
        return self.data[self.i - 1]


class DefaultDict(dict):
    factory = None


def dotted_name(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        return dotted_name(n.value) + "." + n.attr
    if isinstance(n, ast.Call):
        return dotted_name(n.func)
    return "?"


def is_generator(fn):
    def walk(body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(ast.iter_child_nodes(n)):
                return True
        return False
    return walk(fn.body)


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def short(x):
    s = str(x)
    return s if len(s) < 60 else s[:57] + "..."


def label(x):
    return x.label if isinstance(x, Unk) else short(x)


def has_unk(v, depth=0):
    if isinstance(v, (Unk, StarUnk)):
        return True
    if depth > 4:
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(has_unk(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(has_unk(x, depth + 1) or has_unk(k, depth + 1) for k, x in v.items())
    if isinstance(v, slice):
        return has_unk(v.start) or has_unk(v.stop) or has_unk(v.step)
    if isinstance(v, np.ndarray) and v.dtype == object:
        return any(has_unk(x, depth + 1) for x in v.ravel())
    return False


def has_kind(v, kind, depth=0):
    if isinstance(v, Term):
        return v.kind == kind
    if isinstance(v, (list, tuple)) and depth < 4:
        return any(has_kind(x, kind, depth + 1) for x in v)
    return False


def contains_term(v, depth=0):
    if isinstance(v, Term):
        return True
    if depth > 4:
        return False
    if isinstance(v, (list, tuple)):
        return any(contains_term(x, depth + 1) for x in v)
    if isinstance(v, np.ndarray) and v.dtype == object:
        return any(isinstance(x, Term) for x in v.ravel())
    return False


def host_plain(v, depth=0):
    if v is None or isinstance(v, (bool, int, float, complex, str, np.ndarray, np.number, np.bool_, Term, slice, range, np.dtype)):
        return True
    if isinstance(v, (list, tuple, set)) and depth < 5:
        return all(host_plain(x, depth + 1) for x in v)
    if isinstance(v, HostIter):
        return True
    if isinstance(v, ExtV):
        return v.name.startswith(("numpy.", "builtins.", "jax.numpy."))
    return False


def np_safe(a):
    if isinstance(a, ExtV):
        if a.name.startswith(("numpy.", "jax.numpy.")):
            return getattr(np, a.name.split(".")[-1], a)
        if a.name.startswith("builtins."):
            return getattr(_bi, a.name[9:], a)
    if isinstance(a, HostIter):
        return list(a)
    if isinstance(a, Unk) and a.label.startswith("dtype:"):
        return np.dtype(a.label[6:])
    return a


import operator as _op  # noqa: E402

HOSTOPS = {
    "Add": _op.add, "Sub": _op.sub, "Mult": _op.mul, "Div": _op.truediv, "Pow": _op.pow, "Mod": _op.mod,
    "FloorDiv": _op.floordiv, "MatMult": _op.matmul, "BitAnd": _op.and_, "BitOr": _op.or_, "BitXor": _op.xor,
    "LShift": _op.lshift, "RShift": _op.rshift, "Lt": _op.lt, "LtE": _op.le, "Gt": _op.gt, "GtE": _op.ge,
}

EVAL = {getattr(ast, k[3:]): v for k, v in vars(World).items() if k.startswith("ev_") and hasattr(ast, k[3:])}
EXEC = {getattr(ast, k[3:]): v for k, v in vars(World).items() if k.startswith("ex_") and hasattr(ast, k[3:])}
EXEC[ast.AsyncFunctionDef] = World.ex_FunctionDef
EXEC[ast.AsyncFor] = World.ex_For
EXEC[ast.AsyncWith] = World.ex_With

ELEMENTWISE = {"exp": "exp", "cos": "cos", "sin": "sin", "tan": "tan", "sqrt": "sqrt", "arctan2": "arctan2",
               "atan2": "arctan2", "arcsin": "arcsin", "asin": "arcsin", "arccos": "arccos", "acos": "arccos",
               "arctan": "arctan", "atan": "arctan", "log": "log", "log2": "log2", "angle": "angle", "abs": "abs",
               "absolute": "abs", "conj": "conj", "conjugate": "conj", "real": "real", "imag": "imag",
               "floor": "floor", "ceil": "ceil", "float64": "float", "float32": "float", "int64": "int",
               "fabs": "abs", "round": "round", "phase": "angle", "mod": "mod", "power": "pow", "multiply": "mul",
               "add": "add", "subtract": "sub", "divide": "div", "true_divide": "div", "negative": "neg"}

class AtRef:
    """The functional update syntax of jax arrays."""

    def __init__(self, array, idx=None):
        self.array, self.idx = array, idx

    def __getitem__(self, idx):
        return AtRef(self.array, idx)

    def put(self, v, how):
        r = np.array(self.array)
        v = np.asarray(v)
        if r.dtype != object and v.dtype == object:
            r = r.astype(object)
        r[self.idx] = v if how is None else how(r[self.idx], v)
        return r

    def set(self, v):
        return self.put(v, None)

    def add(self, v):
        return self.put(v, np.add)

    def multiply(self, v):
        return self.put(v, np.multiply)


CONST_EXT = {"typing.TYPE_CHECKING": False, "math.pi": math.pi, "numpy.pi": math.pi, "jax.numpy.pi": math.pi,
             "sympy.pi": math.pi, "math.inf": math.inf, "numpy.newaxis": None, "jax.numpy.newaxis": None, "sys.maxsize": sys.maxsize}


# ---------------------------------------------------------------------------
# models of builtins and common external functions
EXT_MODELS = {}


def model(*names):
    def deco(fn):
        for n in names:
            EXT_MODELS[n] = fn
        return fn
    return deco


def bi(name):
    return model("builtins." + name)


@bi("isinstance")
def bi_isinstance(w, a, k, n):
    v, c = a
    return isinst(w, v, c, n)


def isinst(w, v, c, n):
    if isinstance(c, tuple):
        return any([isinst(w, v, x, n) for x in c] if False else (isinst(w, v, x, n) for x in c))
    if isinstance(c, Unk):
        if isinstance(v, (int, float, str, list, tuple, dict)) and not isinstance(v, Obj):
            pass
        return w.decide(App("isinstance", (v if hashable(v) else str(v), c), "bool"), n)
    if c is None:
        return v is None
    if isinstance(v, Unk):
        kc = getattr(v, "classes", None)
        nm = c.name
        if kc is not None:
            return nm.split(".")[-1] in kc
        return w.decide(App("isinstance", (v, nm), "bool"), n)
    if isinstance(c, ClassV):
        if isinstance(v, Obj):
            return v.cls.issub(c)
        return False
    if isinstance(c, ExtV):
        nm = c.name
        last = nm.split(".")[-1]
        if isinstance(v, Obj):
            if nm == "builtins.object":
                return True
            return any(b == c or (b.name.split(".")[-1] == last) for b in v.cls.ext_bases())
        if isinstance(v, Term):
            k = v.kind
            if k == "float":
                return last in ("float", "Real", "Number", "object")
            if k == "int":
                return last in ("int", "Integral", "Number", "object")
            if k == "bool":
                return last in ("bool", "object")
            if k == "str":
                return last in ("str", "object")
            if k in ("expr", "symbol"):
                return last in ("Expr", "Basic", "object") or (last == "Symbol" and isinstance(v, Sym))
            if k == "tracer":
                return last in ("Tracer", "DynamicJaxprTracer", "Array", "object")
            return w.decide(App("isinstance", (v, nm), "bool"), n)
        if isinstance(v, ExcV):
            return w.exc_matches(v, c, n)
        if getattr(v, "ext_names", None):
            return nm in v.ext_names
        if nm.startswith("builtins."):
            if last == "NoneType":
                return v is None
            hc = getattr(_bi, last, None)
            if isinstance(v, (FuncV, BoundM, HostFn)):
                return last == "object"
            if isinstance(v, (ClassV,)):
                return last in ("type", "object")
            if isinstance(v, ExtV):
                if last == "type":
                    return isinstance(getattr(_bi, v.name.split(".")[-1], None), type)
                return last == "object"
            if isinstance(v, HostIter):
                return False
            return isinstance(hc, type) and isinstance(v, hc)
        if nm.startswith("numpy."):
            hc = getattr(np, last, None)
            if isinstance(hc, type):
                return isinstance(v, hc)
            return False
        if last in ("FunctionType", "Callable", "MethodType", "LambdaType"):
            return isinstance(v, (FuncV, BoundM, HostFn))
        if last in ("Iterable", "Sequence", "Collection"):
            return isinstance(v, (list, tuple, str, dict, set, range, np.ndarray)) if last == "Iterable" else isinstance(v, (list, tuple, str, range))
        if last in ("Number",):
            return is_num(v)
        if last in ("Integral",):
            return isinstance(v, (int, np.integer))
        if last in ("Real",):
            return isinstance(v, (int, float, np.number))
        if last in ("Mapping", "MutableMapping"):
            return isinstance(v, dict)
        if last in ("Generator", "Iterator"):
            return isinstance(v, HostIter)
        return False
    return w.decide(App("isinstance", (v if hashable(v) else str(v), Unk(str(c))), "bool"), n)


@bi("issubclass")
def _(w, a, k, n):
    v, c = a
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(v, ClassV):
        return any(v.issub(x) if isinstance(x, (ClassV, ExtV)) else False for x in cs)
    return w.decide(App("issubclass", (Unk(str(v)), str(c)), "bool"), n)


@bi("len")
def _(w, a, k, n):
    v = a[0]
    if isinstance(v, Obj):
        f, _o = v.cls.lookup("__len__")
        if f is not None:
            return w.call(BoundM(f, v), [], {}, n)
        if "__items__" in v.attrs:
            return len(v.attrs["__items__"])
        if w.host_base(v.cls):
            return len(w.host_payload(v, w.host_base(v.cls)))
        if v.cls.ext_bases():
            return App("len", (v,), "int")
        raise AbsRaise(ExcV(TypeError, ("no len",)), n)
    if isinstance(v, Unk):
        return App("len", (v,), "int")
    if isinstance(v, HostIter):
        raise AbsRaise(ExcV(TypeError, ("no len",)), n)
    if isinstance(v, Term):
        if v.kind in ("tracer", "opaque"):
            return App("len", (v,), "int")
        raise AbsRaise(ExcV(TypeError, ("no len",)), n)
    return w.hosttry(lambda: len(v), n)


@bi("range")
def _(w, a, k, n):
    a = [int(x) if isinstance(x, np.integer) else x for x in a]
    if any(isinstance(x, (Unk, Term)) for x in a):
        return Unk("range(%s)" % ",".join(label(x) for x in a))
    return w.hosttry(lambda: range(*a), n)


@bi("enumerate")
def _(w, a, k, n):
    st = a[1] if len(a) > 1 else k.get("start", 0)
    if isinstance(a[0], Unk):
        return HostIter([(App("idx", (a[0],), "int"), x) for x in w.iterate(a[0], n)])
    return HostIter([(i + st, x) for i, x in enumerate(w.iterate(a[0], n))])


@bi("zip")
def _(w, a, k, n):
    its = [w.iterate(x, n) for x in a]
    return HostIter(zip(*its))


@bi("list")
def _(w, a, k, n):
    if a and isinstance(a[0], Unk):
        u = Unk("list(%s)" % a[0].label, key="list(%s)" % a[0].key)
        u.items = a[0].items
        return u
    return w.iterate(a[0], n) if a else []


@bi("tuple")
def _(w, a, k, n):
    if a and isinstance(a[0], Unk):
        return a[0]
    return tuple(w.iterate(a[0], n)) if a else ()


@bi("set")
def _(w, a, k, n):
    if a and isinstance(a[0], Unk):
        return a[0]
    return w.hosttry(lambda: set(w.iterate(a[0], n)) if a else set(), n)


@bi("frozenset")
def _(w, a, k, n):
    if a and isinstance(a[0], Unk):
        return a[0]
    return w.hosttry(lambda: frozenset(w.iterate(a[0], n)) if a else frozenset(), n)


@bi("dict")
def _(w, a, k, n):
    d = {}
    if a:
        if isinstance(a[0], Unk):
            return a[0]
        x = a[0]
        if isinstance(x, Obj) and "__items__" in x.attrs:
            x = x.attrs["__items__"]
        if isinstance(x, dict):
            d.update(x)
        else:
            for kv in w.iterate(x, n):
                kk = w.iterate(kv, n)
                d[kk[0]] = kk[1]
    d.update({q: v for q, v in k.items() if q != "**unk"})
    return d


@bi("sorted")
def _(w, a, k, n):
    if isinstance(a[0], Unk):
        return Unk("sorted(%s)" % a[0].label)
    xs = w.iterate(a[0], n)
    key = k.get("key")
    kf = w.wrap_callable(key, n) if key is not None else None
    ks = [kf(x) if kf else x for x in xs]
    if any(isinstance(x, (Unk, Term)) for x in ks):
        return xs
    if any(isinstance(x, Obj) for x in ks):
        import functools

        def cmp(i, j):
            if w.truth(w.compare("Lt", ks[i], ks[j], n), n):
                return -1
            if w.truth(w.compare("Lt", ks[j], ks[i], n), n):
                return 1
            return 0
        order = sorted(range(len(xs)), key=functools.cmp_to_key(cmp), reverse=bool(k.get("reverse", False)))
        return [xs[i] for i in order]
    return w.hosttry(lambda: [xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i],
                                                    reverse=bool(k.get("reverse", False)))], n, xs)


@bi("reversed")
def _(w, a, k, n):
    if isinstance(a[0], Unk):
        return Unk("reversed(%s)" % a[0].label)
    return HostIter(w.iterate(a[0], n)[::-1])


@bi("sum")
def _(w, a, k, n):
    if isinstance(a[0], Unk):
        return Unk("sum(%s)" % a[0].label)
    tot = a[1] if len(a) > 1 else k.get("start", 0)
    for x in w.iterate(a[0], n):
        tot = w.binop("Add", tot, x, n)
    return tot


def _minmax(which):
    def f(w, a, k, n):
        xs = w.iterate(a[0], n) if len(a) == 1 else list(a)
        if len(a) == 1 and isinstance(a[0], Unk):
            return Unk("%s(%s)" % (which, a[0].label))
        key = k.get("key")
        kf = w.wrap_callable(key, n) if key is not None else (lambda x: x)
        if not xs:
            if "default" in k:
                return k["default"]
            raise AbsRaise(ExcV(ValueError, ("empty",)), n)
        ks = [kf(x) for x in xs]
        if any(isinstance(x, Unk) for x in ks):
            return Unk("%s(%s)" % (which, ",".join(label(x) for x in xs)))
        if any(isinstance(x, Term) for x in ks):
            if len(xs) == 1:
                return xs[0]
            r = xs[0]
            for x in xs[1:]:
                r = mk(which, r, x)
            return r
        f2 = min if which == "min" else max
        return w.hosttry(lambda: xs[f2(range(len(xs)), key=lambda i: ks[i])], n)
    return f


EXT_MODELS["builtins.min"] = _minmax("min")
EXT_MODELS["builtins.max"] = _minmax("max")


@bi("abs")
def _(w, a, k, n):
    v = a[0]
    if isinstance(v, Term):
        return mk("abs", v)
    if isinstance(v, Unk):
        return Unk("abs(%s)" % v.label)
    if isinstance(v, Obj):
        f, _o = v.cls.lookup("__abs__")
        if f is not None:
            return w.call(BoundM(f, v), [], {}, n)
    return w.hosttry(lambda: abs(v), n)


def _numcast(nm, host):
    def f(w, a, k, n):
        if not a:
            return host()
        v = a[0]
        if isinstance(v, Term):
            if v.kind in ("expr", "symbol") and free_syms(v):
                raise AbsRaise(ExcV(TypeError, ("Cannot convert expression to %s" % nm,)), n)
            if nm == "float" and v.kind == "float":
                return v
            if nm == "int" and v.kind == "int":
                return v
            if v.kind == "bool":
                return 1 if w.truth(v, n) else 0
            return mk(nm, v)
        if isinstance(v, Unk):
            return Unk("%s(%s)" % (nm, v.label))
        if isinstance(v, Obj):
            f2, _o = v.cls.lookup("__%s__" % nm)
            if f2 is not None:
                return w.call(BoundM(f2, v), [], {}, n)
            if v.cls.ext_bases():
                return w.fresh("%s(%s)" % (nm, v))
            raise AbsRaise(ExcV(TypeError, ("cannot cast",)), n)
        return w.hosttry(lambda: host(*a), n)
    return f


for _nm, _hc in (("int", int), ("float", float), ("complex", complex)):
    EXT_MODELS["builtins." + _nm] = _numcast(_nm, _hc)


@bi("bool")
def _(w, a, k, n):
    if a and isinstance(a[0], (Term, Unk)):
        return w.truth(a[0], n)
    return w.truth(a[0], n) if a else False


@bi("str")
def _(w, a, k, n):
    if not a:
        return ""
    return w.to_str(a[0], n)


@bi("repr")
def _(w, a, k, n):
    return repr(a[0])


@bi("hasattr")
def _(w, a, k, n):
    v, nm = a
    if isinstance(v, Unk):
        if nm in v.attrs:
            return True
        return w.decide(App("hasattr", (v, nm), "bool"), n)
    if isinstance(v, Obj):
        c, o = v.cls.lookup(nm)
        if nm in v.attrs:
            return True
        if o is not None:
            if isinstance(c, PropV):
                try:
                    w.getattr(v, nm, n)
                except AbsRaise:
                    return False
            return True
        if w.host_base(v.cls):
            return hasattr({}, nm) if w.host_base(v.cls) == "dict" else hasattr([], nm)
        ga, _o = v.cls.lookup("__getattr__")
        if ga is not None:
            try:
                w.getattr(v, nm, n)
                return True
            except AbsRaise:
                return False
        return False
    if isinstance(v, (ExtV,)):
        return False
    try:
        w.getattr(v, nm, n)
        return True
    except AbsRaise:
        return False


@bi("getattr")
def _(w, a, k, n):
    if not isinstance(a[1], str):
        return w.fresh("getattr(%s,?)" % short(a[0]))
    try:
        return w.getattr(a[0], a[1], n)
    except AbsRaise as e:
        if len(a) > 2 and isinstance(e.exc, ExcV) and e.exc.cls is AttributeError:
            return a[2]
        raise


@bi("setattr")
def _(w, a, k, n):
    w.setattr(a[0], a[1], a[2], n)


@bi("delattr")
def _(w, a, k, n):
    if isinstance(a[0], Obj):
        a[0].attrs.pop(a[1], None)


@bi("callable")
def _(w, a, k, n):
    v = a[0]
    if isinstance(v, (FuncV, BoundM, HostFn, ClassV)):
        return True
    if isinstance(v, ExtV):
        return True
    if isinstance(v, Obj):
        return v.cls.lookup("__call__")[1] is not None
    if isinstance(v, Unk):
        return w.decide(App("callable", (v,), "bool"), n)
    return False


@bi("type")
def _(w, a, k, n):
    v = a[0]
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Unk):
        return Unk("type(%s)" % v.label, key="type(%s)" % v.key)
    if isinstance(v, Term):
        return ExtV({"float": "builtins.float", "int": "builtins.int", "bool": "builtins.bool", "str": "builtins.str",
                     "expr": "sympy.Expr", "symbol": "sympy.Symbol"}.get(v.kind, "ext.Tracer"))
    if isinstance(v, ExcV):
        return ExtV("builtins." + v.cls.__name__) if isinstance(v.cls, type) else v.cls
    if isinstance(v, (FuncV, BoundM)):
        return ExtV("types.FunctionType")
    if isinstance(v, np.ndarray):
        return ExtV("numpy.ndarray")
    if isinstance(v, np.generic):
        return ExtV("numpy." + type(v).__name__)
    if isinstance(v, ClassV):
        return ExtV("builtins.type")
    return ExtV("builtins." + type(v).__name__)


@bi("id")
def _(w, a, k, n):
    return id(a[0])


@bi("hash")
def _(w, a, k, n):
    return w.hosttry(lambda: hash(a[0]), n)


@bi("any")
def _(w, a, k, n):
    return any([w.truth(x, n) for x in w.iterate(a[0], n)] if False else (w.truth(x, n) for x in w.iterate(a[0], n)))


@bi("all")
def _(w, a, k, n):
    return all(w.truth(x, n) for x in w.iterate(a[0], n))


@bi("map")
def _(w, a, k, n):
    its = [w.iterate(x, n) for x in a[1:]]
    return HostIter([w.call(a[0], list(x), {}, n) for x in zip(*its)])


@bi("filter")
def _(w, a, k, n):
    return HostIter([x for x in w.iterate(a[1], n)
                     if w.truth(w.call(a[0], [x], {}, n) if a[0] is not None else x, n)])


@model("builtins.print", "warnings.warn")
def _(w, a, k, n):
    return None


@bi("round")
def _(w, a, k, n):
    v = a[0]
    if isinstance(v, Term):
        return mk("round", *a)
    if isinstance(v, (Unk, Obj)):
        return w.fresh("round")
    return w.hosttry(lambda: round(*a), n)


def _hostfn(nm):
    h = getattr(_bi, nm)

    def f(w, a, k, n):
        if any(isinstance(x, (Unk, Term, Obj)) for x in a):
            return w.fresh(nm)
        return w.hosttry(lambda: h(*a, **k), n)
    return f


for _nm in ("bin", "chr", "ord", "divmod", "pow", "oct", "hex", "format", "bytes"):
    EXT_MODELS["builtins." + _nm] = _hostfn(_nm)


@bi("slice")
def _(w, a, k, n):
    return slice(*a)


@bi("iter")
def _(w, a, k, n):
    return HostIter(w.iterate(a[0], n))


@bi("next")
def _(w, a, k, n):
    it = a[0]
    if isinstance(it, HostIter):
        try:
            return next(it)
        except StopIteration:
            if len(a) > 1:
                return a[1]
            raise AbsRaise(ExcV(StopIteration, ()), n)
    if isinstance(it, Obj):
        f, _o = it.cls.lookup("__next__")
        if f is not None:
            return w.call(BoundM(f, it), [], {}, n)
    return w.fresh("next")


@bi("super")
def _(w, a, k, n):
    if len(a) == 2 and isinstance(a[0], ClassV):
        return SuperV(a[0], a[1])
    return w.fresh("super")


@bi("object")
def _(w, a, k, n):
    return w.fresh("object")


@bi("property")
def _(w, a, k, n):
    return PropV(a[0], a[1] if len(a) > 1 else None)


@bi("staticmethod")
def _(w, a, k, n):
    if isinstance(a[0], FuncV):
        a[0].kind = "static"
    return a[0]


@bi("vars")
def _(w, a, k, n):
    return a[0].attrs if isinstance(a[0], Obj) else w.fresh("vars")


@model("builtins.object.__setattr__")
def _(w, a, k, n):
    if isinstance(a[0], Obj):
        a[0].attrs[a[1]] = a[2]


_OBJECT = ClassV("object", None, None, [], {})


@model("builtins.object")
def _(w, a, k, n):
    return Obj(_OBJECT)


@model("builtins.object.__new__")
def _(w, a, k, n):
    return Obj(a[0]) if isinstance(a[0], ClassV) else w.fresh("new")


@model("builtins.dict.fromkeys")
def _(w, a, k, n):
    return {x: (a[1] if len(a) > 1 else None) for x in w.iterate(a[0], n)}


@model("builtins.dict.__getitem__", "builtins.list.__getitem__")
def _(w, a, k, n):
    x = a[0].attrs["__items__"] if isinstance(a[0], Obj) and "__items__" in a[0].attrs else a[0]
    return w.getitem(x, a[1], n) if isinstance(x, (dict, list)) else w.fresh("item")


@model("builtins.set.union")
def _(w, a, k, n):
    sets = [x.attrs["__items__"] if isinstance(x, Obj) and "__items__" in x.attrs else x for x in a]
    if not sets or not all(isinstance(x, (set, frozenset)) for x in sets):
        return w.fresh("set.union()")
    return w.hosttry(lambda: set().union(*sets), n)


@model("builtins.str.join")
def _(w, a, k, n):
    return a[0].join(str(x) for x in w.iterate(a[1], n))


@model("builtins.int.from_bytes")
def _(w, a, k, n):
    return w.fresh("int.from_bytes")


@model("copy.copy")
def _(w, a, k, n):
    v = a[0]
    if isinstance(v, Obj):
        f, _o = v.cls.lookup("__copy__")
        if f is not None:
            return w.call(BoundM(f, v), [], {}, n)
        o = Obj(v.cls, dict(v.attrs))
        if "__items__" in o.attrs:
            o.attrs["__items__"] = type(o.attrs["__items__"])(o.attrs["__items__"])
        return o
    if isinstance(v, (list, dict, set)):
        return type(v)(v) if not isinstance(v, DefaultDict) else v
    if isinstance(v, np.ndarray):
        return v.copy()
    return v


@model("copy.deepcopy")
def _(w, a, k, n):
    memo = {}

    def dc(v):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Obj):
            o = Obj(v.cls)
            memo[id(v)] = o
            o.attrs = {q: dc(x) for q, x in v.attrs.items()}
            return o
        if isinstance(v, list):
            r = []
            memo[id(v)] = r
            r.extend(dc(x) for x in v)
            return r
        if isinstance(v, tuple):
            return tuple(dc(x) for x in v)
        if isinstance(v, dict):
            return {dc(q): dc(x) for q, x in v.items()}
        if isinstance(v, set):
            return {dc(x) for x in v}
        if isinstance(v, np.ndarray):
            return v.copy()
        return v
    return dc(a[0])


@model("collections.defaultdict")
def _(w, a, k, n):
    d = DefaultDict()
    d.factory = a[0] if a else None
    return d


@model("collections.OrderedDict")
def _(w, a, k, n):
    return EXT_MODELS["builtins.dict"](w, a, k, n)


@model("collections.Counter")
def _(w, a, k, n):
    d = DefaultDict()
    d.factory = HostFn(lambda *x: 0, "zero")
    if a:
        for x in w.iterate(a[0], n):
            d[x] = d.get(x, 0) + 1
    return d


@model("functools.reduce")
def _(w, a, k, n):
    xs = w.iterate(a[1], n)
    acc = a[2] if len(a) > 2 else xs.pop(0)
    for x in xs:
        acc = w.call(a[0], [acc, x], {}, n)
    return acc


@model("functools.partial")
def _(w, a, k, n):
    f, pre, kw = a[0], list(a[1:]), dict(k)
    return HostFn(lambda w2, a2, k2, n2: w2.call(f, pre + list(a2), {**kw, **k2}, n2), "partial")


@model("sympy.Symbol")
def _(w, a, k, n):
    return Sym(str(a[0]), "symbol")


@model("sympy.symbols")
def _(w, a, k, n):
    names = str(a[0]).replace(",", " ").split()
    xs = tuple(Sym(x, "symbol") for x in names)
    return xs[0] if len(xs) == 1 else xs


@model("sympy.lambdify")
def _(w, a, k, n):
    params, expr = a[0], a[1]
    ps = w.iterate(params, n) if isinstance(params, (list, tuple, set)) else [params]

    def f(w2, a2, k2, n2):
        sub = {p.name: x for p, x in zip(ps, a2) if isinstance(p, Sym)}

        def go(e):
            if isinstance(e, Term):
                return substitute(e, sub)
            if isinstance(e, (list, tuple)):
                return type(e)(go(x) for x in e)
            return e
        return go(expr)
    return HostFn(f, "lambdify")


@model("math.isclose", "numpy.isclose", "numpy.allclose")
def _(w, a, k, n):
    x, y = a[0], a[1]
    if isinstance(x, Term) or isinstance(y, Term):
        return App("isclose", (x, y), "bool")
    if any(has_unk(v) for v in a) or not host_plain(x) or not host_plain(y):
        return App("truth", (w.fresh("isclose"),), "bool")
    return w.hosttry(lambda: bool(np.allclose(x, y, atol=k.get("atol", 1e-8))), n)


@model("numpy.array", "numpy.asarray", "jax.numpy.array", "jax.numpy.asarray")
def _(w, a, k, n):
    v = a[0]
    if isinstance(v, Unk):
        return v
    if isinstance(v, Term):
        return v
    if isinstance(v, (HostIter, range)):
        v = list(v)
    if isinstance(v, Obj) and v.cls.name == "Edges":
        v = list(w.iterate(v, n))
    if has_unk(v):
        if isinstance(v, np.ndarray):
            return v
        return w.fresh("array")
    if contains_term(v):
        return np.array(v, dtype=object)
    if not host_plain(v):
        if isinstance(v, (list, tuple)):
            r = np.empty(len(v), dtype=object)
            for i, x in enumerate(v):
                r[i] = x
            return r
        return w.fresh("array")
    dt = k.get("dtype", a[1] if len(a) > 1 else None)
    dt = np_safe(dt)
    if not isinstance(dt, (type, str, np.dtype)):
        dt = None
    return w.hosttry(lambda: np.array(v, dtype=dt), n)


@model("jax.core.Tracer")
def _(w, a, k, n):
    return w.fresh("Tracer")


@model("jax.vmap")
def _(w, a, k, n):
    def mapped(w2, x, kw, node):
        cols = [list(v) if isinstance(v, (np.ndarray, list, tuple)) else None for v in x]
        if kw or len(a) > 1 or k or None in cols or not cols or len({len(c) for c in cols}) != 1:
            return w2.fresh("vmap()")
        rows = [w2.call(a[0], list(r), {}, node) for r in zip(*cols)]
        if rows and isinstance(rows[0], tuple):
            return tuple(np.array([r[i] for r in rows]) for i in range(len(rows[0])))
        return np.array(rows)
    return HostFn(mapped, "vmap")


@model("jax.lax.cond")
def _(w, a, k, n):
    if len(a) >= 3 and isinstance(a[0], (bool, int, np.bool_)):
        return w.call(a[1] if a[0] else a[2], list(a[3:]) + ([k["operand"]] if "operand" in k else []), {}, n)
    w.event("ext-call", ("jax.lax", list(a), dict(k)), n)
    return w.fresh("lax")


@model("jax.lax.fori_loop", "jax.lax.while_loop")
def _(w, a, k, n):
    w.event("ext-call", ("jax.lax", list(a), dict(k)), n)
    return w.fresh("lax")


@model("inspect.signature")
def _(w, a, k, n):
    return w.fresh("signature")


@model("weakref.ref")
def _(w, a, k, n):
    v = a[0]
    return HostFn(lambda *x: v, "weakref")


@model("numpy.random.rand", "numpy.random.randint", "random.random", "random.randint", "numpy.random.random",
       "time.time", "time.perf_counter", "random.choice", "numpy.random.choice", "numpy.random.default_rng",
       "numpy.random.seed", "random.sample", "random.shuffle", "numpy.random.shuffle")
def _(w, a, k, n):
    return w.fresh("random")


# ---------------------------------------------------------------------------
class Outcome:
    def __init__(self, kind, value, world):
        self.kind = kind          # "ok" | "raise" | "imprecise"
        self.value = value
        self.world = world
        self.conds = [(k, v) for k, v, n in world.trail]
        self.events = world.events

    def __repr__(self):
        return "<%s %r | %s>" % (self.kind, self.value, self.conds)


def explore(prog, body, max_paths=64, **kw):
    """Enumerate the partitions of ``body(world)``.  Returns (outcomes, complete)."""
    work = [()]
    outs = []
    while work:
        if len(outs) >= max_paths:
            return outs, False
        pre = work.pop()
        w = World(prog, pre, **kw)
        try:
            res = ("ok", body(w))
        except AbsRaise as e:
            res = ("raise", e)
        except Infeasible:
            res = None
        except Imprecise as e:
            res = ("imprecise", e)
        except RecursionError as e:
            res = ("imprecise", Imprecise("recursion"))
        except MemoryError:
            res = ("imprecise", Imprecise("memory"))
        # Open partitions beyond the limit are not kept: the result is marked incomplete.
        for i in range(len(pre), len(w.trail)):
            if len(work) + len(outs) > max_paths:
                break
            alt = tuple(t[1] for t in w.trail[:i]) + (not w.trail[i][1],)
            work.append(alt)
        if res is not None:
            outs.append(Outcome(res[0], res[1], w))
    return outs, True
