"""Interprocedural side-effect and aliasing analysis.

For every function a summary is computed: which objects reachable from its parameters (or from module globals) it
may change, which parameter values it may store where, and which of them its result may share.  Values are access
paths rooted at parameters, objects created at an allocation site, or unknown; objects created by shallow copies
remember what they were copied from.  Summaries are iterated to a fixpoint over the call graph."""
import ast

from . import flow

DEPTH = 3
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "add", "discard", "popitem",
            "appendleft", "popleft", "__setitem__", "fill", "difference_update", "intersection_update", "symmetric_difference_update", "setflags"}
GRAPH_MUTATORS = {"add_node", "add_nodes_from", "add_edge", "add_edges_from", "remove_node", "remove_nodes_from", "remove_edge", "remove_edges_from",
                  "add_weighted_edges_from"}
FRESH_CONTAINERS = {"list", "tuple", "set", "dict", "sorted", "reversed", "frozenset", "deque", "OrderedDict", "defaultdict"}
PASS_THROUGH = {"iter", "enumerate", "zip", "next", "max", "min", "filter", "map"}


def P(p, path=()):
    return ("P", p, tuple(path)[:DEPTH])


class Summary:
    __slots__ = ("mut", "ret", "store", "rheap", "fields")

    def __init__(self):
        self.mut = {}          # value (P.../G...) -> node of the first witness
        self.ret = frozenset()
        self.store = set()     # (dest value, field, source value)
        self.rheap = {}        # fields of returned fresh objects: (site, field) -> values

    def key(self):
        return (frozenset(self.mut), self.ret, frozenset(self.store), tuple(sorted((k, tuple(sorted(map(str, v)))) for k, v in self.rheap.items())))


NAME_TYPES = {"qc": "QuantumCircuit", "circuit": "QuantumCircuit", "qs": "QuantumSession", "op": "Operation", "operation": "Operation", "gate": "Operation",
              "instr": "Instruction", "instruction": "Instruction", "jaspr": "Jaspr", "qv": "QuantumVariable", "definition": "QuantumCircuit",
              "base_operation": "Operation", "qc_new": "QuantumCircuit", "res_qc": "QuantumCircuit", "hamiltonian": "QubitOperator"}


class Effects:
    def __init__(self, prog, modules=None, rounds=6):
        self.prog = prog
        self.summ = {}
        self.by_name = {}
        self.classes = {}
        self.methods = {}
        self.fns = []
        self.cls_of = {}
        for mod in prog.modules.values():
            for st in ast.walk(mod.tree):
                if isinstance(st, ast.ClassDef):
                    self.classes.setdefault(st.name, st)
        for m, q, fn, cls in prog.functions():
            if modules is not None and not m.name.startswith(modules):
                continue
            self.fns.append((m, q, fn, cls))
            self.cls_of[id(fn)] = cls
            self.summ[id(fn)] = Summary()
            if cls is not None:
                self.methods.setdefault(fn.name, []).append((cls.name, fn))
        for r in range(rounds):
            changed = False
            for m, q, fn, cls in self.fns:
                old = self.summ[id(fn)].key()
                a = Analysis(self, m, q, fn, cls)
                a.run()
                self.summ[id(fn)] = a.out
                if a.out.key() != old:
                    changed = True
            self.rounds = r + 1
            if not changed:
                break

    # -- class hierarchy ------------------------------------------------
    def bases(self, cname, seen=None):
        seen = seen if seen is not None else set()
        if cname in seen or cname not in self.classes:
            return
        seen.add(cname)
        yield cname
        for b in self.classes[cname].bases:
            n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
            if n:
                yield from self.bases(n, seen)

    def subclasses(self, cname):
        return [c for c in self.classes if c != cname and cname in set(self.bases(c))]

    def find_method(self, cname, name, subs=False):
        """Definitions that a call of method name on a cname object may reach."""
        out = []
        for c in self.bases(cname):
            for st in self.classes[c].body:
                if isinstance(st, ast.FunctionDef) and st.name == name:
                    out.append(st)
                    break
            if out:
                break
        if subs:
            for s in self.subclasses(cname):
                for st in self.classes[s].body:
                    if isinstance(st, ast.FunctionDef) and st.name == name:
                        out.append(st)
        return [f for f in out if id(f) in self.summ]


class Analysis:
    def __init__(self, eff, mod, qual, fn, cls):
        self.e = eff
        self.mod = mod
        self.fn = fn
        self.cls = cls
        self.out = Summary()
        self.heap = {}
        self.params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        if fn.args.vararg:
            self.params.append(fn.args.vararg.arg)
        if fn.args.kwarg:
            self.params.append(fn.args.kwarg.arg)
        self.types = {}
        for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs:
            t = ann(a.annotation)
            if t is None and a.arg == "self" and cls is not None:
                t = cls.name
            if t in eff.classes:
                self.types[a.arg] = t
            elif a.arg in NAME_TYPES:
                self.types[a.arg] = NAME_TYPES[a.arg]
        if cls is not None and self.params and any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list) is False and self.params[0] == "self":
            self.types["self"] = cls.name
        self.ntypes = {}       # allocation site -> class name
        self.locals = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(self.params)

    def run(self):
        init = {p: frozenset([P(p)]) for p in self.params}
        cfg = flow.CFG(self.fn)
        val = {n.id: None for n in cfg.nodes}
        val[cfg.entry.id] = init
        work = [cfg.entry]
        steps = 0
        while work and steps < 4000:
            steps += 1
            n = work.pop(0)
            env = self.transfer(n, dict(val[n.id]))
            for s, lab in n.succ:
                if lab == "e" and s.kind == "raise":
                    continue
                new = join(val[s.id], env)
                if new != val[s.id]:
                    val[s.id] = new
                    if s not in work:
                        work.append(s)
        rh = {}
        todo = [v for v in self.out.ret if v[0] == "N"]
        seen = set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            for (site, f), vs in self.heap.items():
                if site == v[1]:
                    rh[(site, f)] = frozenset(vs)
                    todo += [x for x in vs if x[0] == "N"]
        self.out.rheap = rh
        for k in list(self.out.mut):
            if k[0] == "P" and restored(self.fn, k):
                del self.out.mut[k]
        # what fresh objects stored into parameters hold is not tracked further

    # -- statements -------------------------------------------------------
    def transfer(self, node, env):
        a = node.ast
        if a is None:
            return env
        if node.kind == "iter":
            it = self.ev(a.iter, env)
            self.assign(a.target, self.elements(it), env)
            return env
        if node.kind == "enter":
            v = self.ev(a.context_expr, env)
            if a.optional_vars is not None:
                self.assign(a.optional_vars, v, env)
            return env
        if node.kind in ("leave", "handler"):
            return env
        if node.kind == "test":
            self.ev(a, env) if isinstance(a, ast.expr) else None
            return env
        if isinstance(a, ast.Assign):
            v = self.ev(a.value, env)
            for t in a.targets:
                self.assign(t, v, env, a.value)
        elif isinstance(a, ast.AnnAssign):
            if a.value is not None:
                self.assign(a.target, self.ev(a.value, env), env)
        elif isinstance(a, ast.AugAssign):
            v = self.ev(a.value, env)
            if isinstance(a.target, ast.Name):
                cur = env.get(a.target.id, frozenset())
                if isinstance(a.value, (ast.List, ast.ListComp, ast.Set, ast.Dict)) or (
                        isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Name) and a.value.func.id in ("list", "set", "dict")):
                    self.mutate(cur, a)
                    self.put(cur, "[]", self.elements(v))
                else:
                    env[a.target.id] = frozenset([self.new(a)])
            else:
                base = self.ev(a.target.value, env)
                self.mutate(base, a, getattr(a.target, "attr", "[]"))
        elif isinstance(a, ast.Delete):
            for t in a.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.mutate(self.ev(t.value, env), a)
        elif isinstance(a, ast.Return):
            if a.value is not None:
                self.out.ret = self.out.ret | self.ev(a.value, env)
        elif isinstance(a, ast.Expr):
            if isinstance(a.value, (ast.Yield, ast.YieldFrom)) and a.value.value is not None:
                self.out.ret = self.out.ret | self.ev(a.value.value, env)
            else:
                self.ev(a.value, env)
        elif isinstance(a, (ast.Raise, ast.Assert)):
            pass
        return env

    def assign(self, t, v, env, src=None):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts):
                vs = [self.ev(x, env) for x in src.elts]
                for x, y in zip(t.elts, vs):
                    self.assign(x, y, env)
            else:
                el = self.elements(v)
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, el, env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.mutate(b, t, t.attr)
            strong = len(b) == 1 and next(iter(b))[0] == "N"
            self.put(b, t.attr, v, strong)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.mutate(b, t, "[]")
            self.put(b, "[]", v)

    def put(self, bases, field, vals, strong=False):
        for b in bases:
            if b[0] == "N":
                if strong:
                    self.heap[(b[1], field)] = set(vals)
                else:
                    if (b[1], field) not in self.heap:
                        self.heap[(b[1], field)] = set(self.field1(b, field)) if (b[1], "*base") in self.heap else set()
                    self.heap[(b[1], field)] |= set(vals)
            elif b[0] == "P":
                if len(b[2]) > 1:
                    continue
                for v in vals:
                    if v[0] in ("P", "G") and len(v[2]) <= 1 and len(self.out.store) < 60:
                        self.out.store.add((b, field, v))

    def mutate(self, bases, node, field=None):
        for b in bases:
            if b[0] in ("P", "G"):
                k = b if field is None else (b[0], b[1], (b[2] + (field,))[:DEPTH + 1])
                if len(self.out.mut) < 120:
                    self.out.mut.setdefault(k, node)

    # -- expressions --------------------------------------------------------
    def new(self, node, tag=""):
        return ("N", "%s:%s%s" % (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag))

    def field1(self, v, f):
        if v[0] in ("P", "G"):
            return {(v[0], v[1], (v[2] + (f,))[:DEPTH])}
        if v[0] == "N":
            if (v[1], f) in self.heap:
                return set(self.heap[(v[1], f)])
            if (v[1], "*base") in self.heap:
                out = set()
                for b in self.heap[(v[1], "*base")]:
                    if b != v:
                        out |= self.field1(b, f)
                return out
            if v[1].count("~") >= 2:
                return {v}
            return {("N", v[1] + "~" + f)}
        return {v}

    def field(self, vals, f):
        out = set()
        if len(vals) > 60:
            vals = sorted(vals)[:60]
        for v in vals:
            out |= self.field1(v, f)
        return frozenset(out)

    def elements(self, vals):
        return self.field(vals, "[]")

    def ev(self, e, env):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return frozenset()

    def ev_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.locals:
            return frozenset()
        ent = self.mod.table.get(e.id)
        if ent is not None and ent[0] == "assign":
            return frozenset([("G", self.mod.name + "." + e.id, ())])
        return frozenset()

    def ev_Attribute(self, e, env):
        return self.field(self.ev(e.value, env), e.attr)

    def ev_Subscript(self, e, env):
        b = self.ev(e.value, env)
        self.ev(e.slice, env) if not isinstance(e.slice, ast.Slice) else None
        if isinstance(e.slice, ast.Slice):
            n = self.new(e, "s")
            self.heap[(n[1], "[]")] = set(self.elements(b)) | self.heap.get((n[1], "[]"), set())
            return frozenset([n])
        return self.elements(b)

    def ev_Starred(self, e, env):
        return self.elements(self.ev(e.value, env))

    def container(self, e, vals, tag=""):
        n = self.new(e, tag)
        self.heap.setdefault((n[1], "[]"), set()).update(vals)
        return frozenset([n])

    def ev_List(self, e, env):
        vs = set()
        for x in e.elts:
            vs |= self.ev(x, env)
        return self.container(e, vs, "l")
    ev_Tuple = ev_Set = ev_List

    def ev_Dict(self, e, env):
        vs = set()
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, env)
            vs |= self.elements(v) if k is None else v
        return self.container(e, vs, "d")

    def ev_ListComp(self, e, env):
        env = dict(env)
        for g in e.generators:
            self.assign(g.target, self.elements(self.ev(g.iter, env)), env)
            for c in g.ifs:
                self.ev(c, env)
        return self.container(e, self.ev(e.elt, env), "c")
    ev_SetComp = ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, e, env):
        env = dict(env)
        for g in e.generators:
            self.assign(g.target, self.elements(self.ev(g.iter, env)), env)
        self.ev(e.key, env)
        return self.container(e, self.ev(e.value, env), "dc")

    def ev_BinOp(self, e, env):
        l, r = self.ev(e.left, env), self.ev(e.right, env)
        return self.container(e, self.elements(l) | self.elements(r) if isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr)) else set(), "b")

    def ev_BoolOp(self, e, env):
        out = frozenset()
        for x in e.values:
            out |= self.ev(x, env)
        return out

    def ev_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env) | self.ev(e.orelse, env)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def ev_Lambda(self, e, env):
        return frozenset()

    def ev_Constant(self, e, env):
        return frozenset()

    def ev_JoinedStr(self, e, env):
        return frozenset()

    def typ(self, vals, expr):
        """Possible class of an object, or None."""
        ts = set()
        for v in vals:
            if v[0] == "P":
                if not v[2]:
                    ts.add(self.types.get(v[1]))
                else:
                    ts.add(NAME_TYPES.get(v[2][-1]) if v[2][-1] != "[]" else ("Instruction" if len(v[2]) > 1 and v[2][-2] == "data" else None))
            elif v[0] == "N":
                ts.add(self.ntypes.get(v[1]))
            else:
                ts.add(None)
        ts.discard(None)
        if len(ts) == 1:
            return ts.pop()
        if not ts and isinstance(expr, ast.Name) and expr.id in NAME_TYPES and expr.id not in self.types:
            return NAME_TYPES[expr.id]
        return None

    def ev_Call(self, e, env):
        f = e.func
        args = [self.ev(a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        if isinstance(f, ast.Name):
            nm = f.id
            if nm in FRESH_CONTAINERS:
                vs = set()
                for a in args:
                    vs |= self.elements(a)
                return self.container(e, vs, "k")
            if nm in PASS_THROUGH:
                vs = set()
                for a in args:
                    vs |= self.elements(a)
                if nm == "next":
                    return frozenset(vs)
                n = self.container(e, vs, "p")
                if nm in ("enumerate", "zip"):
                    t = self.container(e, vs, "t")
                    return self.container(e, t, "z")
                return n
            if nm == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                return self.field(args[0], str(e.args[1].value))
            if nm == "setattr" and len(e.args) == 3 and isinstance(e.args[1], ast.Constant):
                self.mutate(args[0], e, str(e.args[1].value))
                self.put(args[0], str(e.args[1].value), args[2])
                return frozenset()
            if nm in env and nm in self.locals:
                return frozenset([self.new(e, "u")])
            r = self.e.prog.resolve(self.mod.name, nm)
            if r is None:
                r = self.local_import(nm)
            if r and r[0] == "class":
                return self.construct(r[2], e, args, kws)
            if r and r[0] == "def":
                return self.apply([r[2]], e, None, args, kws)
            return frozenset([self.new(e, "u")])
        if isinstance(f, ast.Attribute):
            nm = f.attr
            if nm == "__setattr__" and isinstance(f.value, ast.Name) and f.value.id == "object" and len(e.args) == 3 and isinstance(e.args[1], ast.Constant):
                fld = str(e.args[1].value)
                self.mutate(args[0], e, fld)
                self.put(args[0], fld, args[2], len(args[0]) == 1 and next(iter(args[0]))[0] == "N")
                return frozenset()
            if isinstance(f.value, ast.Name) and f.value.id == "copy" and "copy" not in env:
                if nm == "copy" and args:
                    n = self.new(e, "cp")
                    self.heap.setdefault((n[1], "*base"), set()).update(args[0])
                    t = self.typ(args[0], e.args[0])
                    if t:
                        self.ntypes[n[1]] = t
                    return frozenset([n])
                return frozenset([self.new(e, "dcp")])
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                base = env.get("self", frozenset())
                fs = []
                if self.cls is not None:
                    for b in list(self.e.bases(self.cls.name))[1:]:
                        fs = self.e.find_method(b, nm, subs=False)
                        if fs:
                            break
                return self.apply(fs, e, base, args, kws) if fs else frozenset([self.new(e, "u")])
            if isinstance(f.value, ast.Name) and f.value.id not in env:
                r = self.e.prog.resolve(self.mod.name, f.value.id) or self.local_import(f.value.id)
                if r and r[0] == "class":
                    fs = self.e.find_method(r[2].name, nm, subs=False)
                    return self.apply(fs, e, None, args, kws) if fs else frozenset([self.new(e, "u")])
                if r and r[0] in ("module", "ext"):
                    if r[0] == "module":
                        rr = self.e.prog.resolve(r[1], nm)
                        if rr and rr[0] == "def":
                            return self.apply([rr[2]], e, None, args, kws)
                        if rr and rr[0] == "class":
                            return self.construct(rr[2], e, args, kws)
                    return frozenset([self.new(e, "x")])
            base = self.ev(f.value, env)
            t = self.typ(base, f.value)
            if t:
                fs = self.e.find_method(t, nm)
                if fs:
                    return self.apply(fs, e, base, args, kws)
            if nm in MUTATORS:
                self.mutate(base, e, "[]")
                for a in args:
                    self.put(base, "[]", self.elements(a) if nm in ("extend", "update") else a)
                return self.elements(base) if nm in ("pop", "popitem", "setdefault", "popleft") else frozenset()
            if nm in GRAPH_MUTATORS:
                self.mutate(base, e, "[]")
                return frozenset()
            if nm in ("items",):
                return self.container(e, self.container(e, self.elements(base), "t"), "z")
            if nm in ("values", "get", "keys"):
                return self.container(e, self.elements(base), "v") if nm != "get" else self.elements(base) | (args[1] if len(args) > 1 else frozenset())
            if nm == "copy" and not args:
                # the copy of an array copies its rows as well; what a list holds is not followed further
                return frozenset([self.new(e, "cp")])
            cands = self.e.methods.get(nm, [])
            if 0 < len(cands) <= 3:
                return self.apply([m for c, m in cands if id(m) in self.e.summ], e, base, args, kws)
            return frozenset([self.new(e, "u")])
        self.ev(f, env)
        return frozenset([self.new(e, "u")])

    def local_import(self, nm):
        for n in ast.walk(self.fn):
            if isinstance(n, ast.ImportFrom):
                for al in n.names:
                    if (al.asname or al.name) == nm:
                        return self.e.prog.resolve_from(self.mod.abs_import(n.module, n.level), al.name)
        return None

    def construct(self, cls, e, args, kws):
        n = self.new(e, "o")
        self.ntypes[n[1]] = cls.name
        fs = self.e.find_method(cls.name, "__init__", subs=False)
        if fs:
            self.apply(fs, e, frozenset([n]), args, kws)
        return frozenset([n])

    def apply(self, fs, e, recv, args, kws):
        ret = set()
        for fn in fs:
            s = self.e.summ.get(id(fn))
            if s is None or fn._mod.name.startswith("qrisp.simulator"):
                continue
            a = fn.args
            names = [x.arg for x in a.posonlyargs + a.args]
            static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
            bind = {}
            pos = list(args)
            if recv is not None and not static and names:
                pos = [recv] + pos
            for n, v in zip(names, pos):
                bind[n] = v
            if len(pos) > len(names) and a.vararg:
                rest = set()
                for v in pos[len(names):]:
                    rest |= v
                bind[a.vararg.arg] = self.container(e, rest, "va")
            for k, v in kws.items():
                if k is not None:
                    bind[k] = v

            def subst(v):
                if v[0] == "P":
                    out = set(bind.get(v[1], ()))
                    for fld in v[2]:
                        out = set(self.field(out, fld))
                    return out
                if v[0] == "N":
                    return {("N", "%s:%s>%s" % (e.lineno, e.col_offset, v[1] if ">" not in v[1] and "~" not in v[1] else "*"))}
                return {v}
            if len(s.rheap) > 60:
                s.rheap = {}
            for m, node in s.mut.items():
                if m[0] == "G":
                    self.out.mut.setdefault(m, node)
                    continue
                base, fld = (m[2][:-1], m[2][-1]) if m[2] else ((), None)
                self.mutate(subst(("P", m[1], base)), e, fld)
            for d, fld, v in s.store:
                self.put(subst(d), fld, subst(v))
            for v in s.ret:
                ret |= subst(v)
            for (site, fld), vs in s.rheap.items():
                k = next(iter(subst(("N", site))))[1]
                tgt = self.heap.setdefault((k, fld), set())
                for v in vs:
                    tgt |= subst(v)
        return frozenset(ret)


def restored(fn, k):
    """Is the attribute only set aside for a while and put back?  tmp = x.f ... x.f = other ... x.f = tmp"""
    if not k[2] or "[]" in k[2]:
        return False
    target = ".".join((k[1],) + k[2])
    saved = set()
    last = None
    for st in flow.own_walk(fn):
        if isinstance(st, ast.Assign):
            v = st.value
            if isinstance(v, ast.Call) and len(v.args) == 1 and not v.keywords:
                v = v.args[0]
            if ast.unparse(v) == target and isinstance(st.targets[0], ast.Name):
                saved.add(st.targets[0].id)
            for t in st.targets:
                if isinstance(t, ast.Attribute) and ast.unparse(t) == target and (last is None or st.lineno > last.lineno):
                    last = st
    return last is not None and isinstance(last.value, ast.Name) and last.value.id in saved


def join(a, b):
    if a is None:
        return b
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, frozenset()) | v
    return out


def ann(e):
    if e is None:
        return None
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value.split("|")[0].strip().split(".")[-1]
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    if isinstance(e, ast.BinOp):
        return ann(e.left)
    return None
