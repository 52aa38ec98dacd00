"""Temporary quantum variables are given back on every path."""
import ast

from sa import flow
from sa.loader import loc

ALLOC = {"QuantumVariable", "QuantumBool", "QuantumFloat", "QuantumArray", "QuantumModulus", "QuantumChar", "QuantumString"}
RELEASE = {"delete", "uncompute"}
READ = {"get_measurement", "measure", "most_likely", "get_spectrum", "plot_histogram", "multi_measurement"} - {"measure"}
EXEMPT_DECOS = {"auto_uncompute", "lifted", "jaspify", "terminal_sampling", "expectation_value", "quantum_kernel", "boolean_simulation"}
SKIP = ("qrisp.examples",)


def is_alloc(e):
    """A constructor call of a quantum type, or a collection of them."""
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Name) and f.id in ALLOC:
            return True
        if isinstance(f, ast.Attribute) and f.attr == "duplicate" and not any(k.arg == "init" for k in e.keywords):
            return True
        return False
    if isinstance(e, ast.ListComp):
        return is_alloc(e.elt)
    if isinstance(e, (ast.List, ast.Tuple)):
        return bool(e.elts) and all(is_alloc(x) for x in e.elts)
    return False


def decos(fn):
    out = set()
    for d in fn.decorator_list:
        d = d.func if isinstance(d, ast.Call) else d
        out.add(d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", ""))
    return out


def mentions(e, names, bare_only=False):
    """Names of ``names`` that the value of expression e may carry."""
    out = set()

    def go(n):
        if isinstance(n, ast.Name):
            if n.id in names:
                out.add(n.id)
        elif isinstance(n, ast.Attribute):
            if n.attr in ("qs", "reg", "measure", "get_measurement", "duplicate", "template", "sort", "T"):
                go(n.value)
        elif isinstance(n, ast.Subscript):
            go(n.value)
        elif isinstance(n, ast.Call):
            go(n.func)
            for a in n.args:
                go(a.value if isinstance(a, ast.Starred) else a)
            for k in n.keywords:
                go(k.value)
        elif isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            for x in n.elts:
                go(x.value if isinstance(x, ast.Starred) else x)
        elif isinstance(n, ast.Dict):
            for x in n.values:
                go(x)
        elif isinstance(n, (ast.BinOp,)):
            go(n.left)
            go(n.right)
        elif isinstance(n, ast.BoolOp):
            for x in n.values:
                go(x)
        elif isinstance(n, ast.IfExp):
            go(n.body)
            go(n.orelse)
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            go(n.elt)
            for g in n.generators:
                go(g.iter)
        elif isinstance(n, (ast.Starred, ast.Await, ast.NamedExpr, ast.Yield, ast.YieldFrom)):
            if n.value is not None:
                go(n.value)
        elif isinstance(n, ast.Compare):
            go(n.left)
            for x in n.comparators:
                go(x)
        elif isinstance(n, ast.UnaryOp):
            go(n.operand)
    if e is not None:
        go(e)
    return out


def bare(e, names, coll=True):
    """Names stored or returned as themselves (inside displays too).

    coll: the names stand for collections of variables, so that list(x), x + y and comprehensions over x
    still carry variables; otherwise these only carry qubits."""
    if not coll and isinstance(e, (ast.BinOp, ast.Call, ast.ListComp, ast.GeneratorExp, ast.Starred)):
        return set()
    if isinstance(e, ast.Name):
        return {e.id} & names
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return set().union(*[bare(x, names, coll) for x in e.elts]) if e.elts else set()
    if isinstance(e, ast.Starred):
        return bare(e.value, names, coll)
    if isinstance(e, ast.IfExp):
        return bare(e.body, names, coll) | bare(e.orelse, names, coll)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return bare(e.left, names, coll) | bare(e.right, names, coll)
    if isinstance(e, ast.Dict):
        return set().union(*[bare(x, names, coll) for x in e.values]) if e.values else set()
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "reversed", "sum"):
        return set().union(*[bare(x, names, coll) for x in e.args]) if e.args else set()
    if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
        out = set()
        for g in e.generators:
            out |= bare(g.iter, names, coll)
        return out
    return set()


class Own:
    def __init__(self, ctx):
        self.ctx = ctx
        self.fr = {}
        self.summ = {}        # function name -> set of released parameter positions/names
        for m, q, fn, cls in ctx.prog.functions():
            ps = [a.arg for a in fn.args.posonlyargs + fn.args.args]
            rel = set()
            for n in flow.own_walk(fn) if False else ast.walk(fn):
                r = released(n, set(ps))
                rel |= r
            if rel:
                self.summ.setdefault(fn.name, []).append((ps, rel))

    def fresh(self, m, name):
        """Does the function return variables it allocated itself?"""
        r = self.ctx.prog.resolve(m.name, name)
        if not r or r[0] != "def":
            return False
        fn = r[2]
        if id(fn) not in self.fr:
            loc_ = {t.id for n in flow.own_walk(fn) if isinstance(n, ast.Assign) and is_alloc(n.value) for t in n.targets if isinstance(t, ast.Name)}
            rets = [n.value for n in flow.own_walk(fn) if isinstance(n, ast.Return)]
            ok = bool(rets)
            for v in rets:
                vs = v.elts if isinstance(v, ast.Tuple) else [v]
                ok = ok and all(isinstance(x, ast.Name) and x.id in loc_ for x in vs)
            self.fr[id(fn)] = ok
        return self.fr[id(fn)]

    def call_releases(self, call, names):
        f = call.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if isinstance(f, ast.Call):       # conjugate(f)(...), control(...)
            return set()
        out = set()
        for ps, rel in self.summ.get(nm, ()):
            args = list(call.args)
            off = 1 if ps[:1] == ["self"] else 0
            for i, a in enumerate(args):
                if i + off < len(ps) and ps[i + off] in rel:
                    out |= bare(a, names)
            for k in call.keywords:
                if k.arg in rel:
                    out |= bare(k.value, names)
        return out


def released(n, names):
    """Names released by this node."""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in RELEASE:
        b = n.func.value
        if isinstance(b, ast.Name) and b.id in names:
            return {b.id}
        if isinstance(b, ast.Subscript) and isinstance(b.value, ast.Name) and b.value.id in names:
            return {b.value.id}
    if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
        c = n.elt
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in RELEASE:
            out = set()
            for g in n.generators:
                out |= mentions(g.iter, names)
            return out
    if isinstance(n, ast.For):
        tg = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        for s in n.body:
            for c in flow.own_walk(s):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in RELEASE:
                    b = c.func.value
                    if isinstance(b, ast.Name) and b.id in tg:
                        return mentions(n.iter, names)
    return set()


def run(ctx):
    ctx.rule("after", "a variable is not used after it was released", 40)
    ctx.rule("returned", "a quantum variable allocated by a library function is released on every path or handed to the caller", 40)
    own = Own(ctx)
    for m, q, fn, cls in ctx.prog.functions():
        if m.name.startswith(SKIP):
            continue
        if decos(fn) & EXEMPT_DECOS:
            continue
        analyse(ctx, own, m, q, fn)


def analyse(ctx, own, m, q, fn):
    allocs = {}
    for n in flow.own_walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and is_alloc(n.value):
            allocs.setdefault(n.targets[0].id, []).append(n)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "append" \
                and isinstance(n.value.func.value, ast.Name) and len(n.value.args) == 1 and is_alloc(n.value.args[0]):
            allocs.setdefault(n.value.func.value.id, []).append(n)
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and own.fresh(m, n.value.func.id):
            t = n.targets[0]
            ts = t.elts if isinstance(t, ast.Tuple) else [t]
            for x in ts:
                if isinstance(x, ast.Name) and not x.id.startswith("_"):
                    allocs.setdefault(x.id, []).append(n)
    if not allocs:
        return
    if builds_circuit(fn):
        return            # the variables live in a session of their own, only their circuit leaves the function
    ctx.visit(fn)
    # nested functions that mention a variable make its fate depend on when they run
    nested = {}
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for x in ast.walk(n):
                if isinstance(x, ast.Name):
                    nested.setdefault(x.id, []).append(n)
    for n in flow.own_walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get_measurement" and mentions(n.func.value, set(allocs)):
            return        # a complete program: it allocates, runs and reads out
    cfg = flow.CFG(fn)
    for v, sites in allocs.items():
        one(ctx, own, m, q, fn, cfg, v, sites, nested.get(v, []))


EXTRACT = {"compile", "to_gate", "to_op", "copy", "transpile", "data", "inverse", "to_qc", "clearcopy"}


def builds_circuit(fn):
    """Does the function read the circuit of a session it creates itself?"""
    local = set()
    for n in flow.own_walk(fn):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
            f = n.value.func
            if isinstance(f, ast.Name) and f.id in ALLOC | {"QuantumSession"} or isinstance(f, ast.Attribute) and f.attr == "duplicate":
                local |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    params = {a.arg for a in fn.args.args}
    for n in flow.own_walk(fn):
        if isinstance(n, ast.Attribute) and n.attr in EXTRACT:
            b = n.value
            if isinstance(b, ast.Attribute) and b.attr == "qs":
                b = b.value
            elif not (isinstance(b, ast.Name) and (b.id in ("qs",) or b.id.endswith("_qs") or b.id.startswith("qs_"))):
                continue
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and b.id in local:
                return True
    for n in flow.own_walk(fn):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "QuantumSession" and isinstance(n.targets[0], ast.Name):
            return True
    return False


def template_only(fn, v):
    """Is the variable only used to describe the type of other variables?"""
    uses = 0
    for n in flow.own_walk(fn):
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg == "qtype" and isinstance(k.value, ast.Name) and k.value.id == v:
                    uses += 1
    loads = sum(isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load) for n in flow.own_walk(fn))
    return uses > 0 and loads <= uses + 6


def one(ctx, own, m, q, fn, cfg, v, sites, nested):
    key = "%s.%s:%s" % (m.name, q, v)
    names = {v}
    coll = any(isinstance(x, ast.Expr) or not isinstance(x.value, ast.Call) for x in sites)
    # aliases by plain assignment
    changed = True
    escaped = False
    read = False
    while changed:
        changed = False
        for n in flow.own_walk(fn):
            if isinstance(n, ast.Assign):
                got = bare(n.value, names, coll)
                if got:
                    for t in n.targets:
                        for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                            if isinstance(x, ast.Name):
                                if x.id not in names:
                                    names.add(x.id)
                                    changed = True
                            elif isinstance(x, (ast.Attribute, ast.Subscript)):
                                escaped = True
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "add") and (
                    len(n.args) == 1 or n.func.attr == "insert"):
                if any(bare(a, names, coll or n.func.attr != "extend") for a in n.args):
                    coll = True
                    b = n.func.value
                    if isinstance(b, ast.Name):
                        if b.id not in names and not is_session(b.id):
                            names.add(b.id)
                            changed = True
                    elif not (isinstance(b, ast.Attribute) and b.attr == "qs"):
                        escaped = True
    for n in flow.own_walk(fn):
        if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and n.value is not None and isinstance(n, (ast.Yield, ast.YieldFrom)):
            if mentions(n.value, names):
                escaped = True
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in READ and mentions(n.func.value, names):
                read = True
            if isinstance(n.func, ast.Name) and n.func.id in READ and any(mentions(a, names) for a in n.args):
                read = True
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("compile", "to_gate", "to_op", "copy", "statevector", "to_qc") and any(
                    isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.func.value)):
                read = True
            if isinstance(n.func, ast.Attribute) and n.func.attr == "run" and any(mentions(a, names) for a in list(n.args) + [k.value for k in n.keywords]):
                read = True
    if template_only(fn, v):
        return
    if any(isinstance(x, ast.Expr) for x in sites) and v in {a.arg for a in fn.args.args + fn.args.kwonlyargs}:
        escaped = True
    if escaped:
        ctx.ok("returned", key + " (handed over)")
        return
    inner = {}                     # nested function -> does it release the variable
    for n in nested:
        inner[getattr(n, "name", None)] = any(released(x, names) or isinstance(x, ast.Return) and mentions(x.value, names) for x in ast.walk(n))
    for n in ast.walk(fn):
        if isinstance(n, ast.FunctionDef) and n is not fn:
            inner.setdefault(n.name, False)

    def via_nested(call):
        if isinstance(call.func, ast.Name) and inner.get(call.func.id):
            return True
        fs = [a.id for a in list(call.args) + [k.value for k in call.keywords] if isinstance(a, ast.Name) and a.id in inner]
        return bool(fs) and all(inner[f] for f in fs)

    live_sites = {id(s) for s in sites}

    def transfer(node, label, state):
        a = node.ast
        if a is None or node.kind in ("test", "handler"):
            return [state]
        if node.kind == "iter":
            if released(a, names) and state == "own":
                return ["done"]
            return [state]
        if node.kind in ("enter", "leave"):
            return [state]
        if id(a) in live_sites and label != "e":
            return ["own"]
        if isinstance(a, ast.Return) and a.value is not None:
            if mentions(a.value, names) or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and mentions(x.func.value, names) for x in flow.own_walk(a.value)):
                return ["done"]
        if state == "own":
            for x in flow.own_walk(a):
                if released(x, names):
                    return ["done"]
                if isinstance(x, ast.Call) and (own.call_releases(x, names) or via_nested(x)):
                    return ["done"]
        return [state]
    after_release(ctx, key, fn, cfg, v, live_sites)
    seen, pred = flow.simulate(cfg, "none", transfer, follow_exc=False)
    if seen is None:
        ctx.unresolved("returned", key, "too many paths")
        return
    bad = [it for it in seen[cfg.exit.id] if it[1] == "own"]
    if not bad:
        ctx.ok("returned", key)
        return
    if callback(m, fn):
        ctx.unresolved("returned", key, "used as a callback, the receiver may uncompute its variables")
        return
    if read:
        ctx.ok("returned", key + " (read out)")
        return
    path = flow.trace(cfg, pred, cfg.exit.id, min(bad, key=lambda i: len(flow.trace(cfg, pred, cfg.exit.id, i))))
    ctx.violate("returned", key, loc(sites[0]), "%s keeps the temporary variable %s allocated on the path through lines %s" % (q, v, path[-25:]))


def after_release(ctx, key, fn, cfg, v, live_sites):
    """No use of v on a path after its own delete() or uncompute()."""
    bad = []

    def transfer(node, label, state):
        a = node.ast
        if a is None or node.kind in ("handler", "leave"):
            return [state]
        if node.kind == "iter":
            if v in flow.stored_names(a):
                return ["none"]
            a = a.iter
        if node.kind == "stmt" and id(a) in live_sites:
            return ["none"]
        if isinstance(a, (ast.FunctionDef, ast.ClassDef)):
            return [state]
        rel = any(isinstance(x, ast.Call) and released(x, {v}) and isinstance(x.func.value, ast.Name) for x in flow.own_walk(a))
        if state == "done":
            uses = [x for x in flow.own_walk(a) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
            attrs = [x.value for x in flow.own_walk(a) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == v
                     and x.attr not in ("encode", "reg")]
            if [u for u in uses if u not in attrs]:
                bad.append(a)
        if v in flow.stored_names(a):
            return ["none"]
        return ["done" if rel and label != "e" else state]
    seen, pred = flow.simulate(cfg, "none", transfer, follow_exc=False)
    if seen is None:
        ctx.unresolved("after", key, "too many paths")
    elif bad:
        ctx.violate("after", key, loc(bad[0]), "%s is used after it was released: %s" % (v, ast.unparse(bad[0])[:120]))
    else:
        ctx.ok("after", key)


def callback(m, fn):
    """A predicate handed to another function, which may evaluate it under automatic uncomputation."""
    loc_ = {t.id for n in flow.own_walk(fn) if isinstance(n, ast.Assign) and is_alloc(n.value) for t in n.targets if isinstance(t, ast.Name)}
    if not any(isinstance(n, ast.Return) and n.value is not None and bare(n.value, loc_) for n in flow.own_walk(fn)):
        return False
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call):
            for a in list(n.args) + [k.value for k in n.keywords]:
                if isinstance(a, ast.Name) and a.id == fn.name and not (isinstance(n.func, ast.Name) and n.func.id in ("conjugate", "qache")):
                    return True
    return False


def is_session(name):
    return name in ("qs", "qc") or name.endswith(("_qs", "_qc"))
