"""Every path finds the names, members and signatures it uses."""
import ast
import builtins
import symtable

from sa import flow
from sa.loader import loc

SKIP = ("qrisp.examples", "qrisp.jasp.mlir.dialect_implementation")
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__class__"}


ALIAS = {}


def aliases(prog):
    """Modules reachable under a second name: the package re-registers its algorithm modules."""
    top = prog.modules["qrisp"]
    for f in ast.walk(top.tree):
        if isinstance(f, ast.For) and isinstance(f.iter, (ast.List, ast.Tuple)) and isinstance(f.target, ast.Name):
            for st in f.body:
                if isinstance(st, ast.Assign) and ast.unparse(st.targets[0]).startswith("sys.modules["):
                    a, b = st.targets[0].slice, st.value.slice if isinstance(st.value, ast.Subscript) else None
                    if b is None or not all(isinstance(x, ast.BinOp) and isinstance(x.left, ast.Constant) for x in (a, b)):
                        continue
                    for el in f.iter.elts:
                        if isinstance(el, ast.Constant):
                            yield a.left.value + el.value, b.left.value + el.value


def run(ctx):
    ctx.rule("import", "what is imported from a module of the package is defined there", 500)
    ctx.rule("name", "a global name that is read is defined in its module, imported or built in", 1000)
    ctx.rule("bound", "a local variable that is read was assigned: never unassigned on all paths, nor left out in one branch of a complete choice", 1500)
    ctx.rule("call", "a call of a function, class or method of the package fits its parameter list", 2000)
    ctx.rule("member", "an attribute read from self is a method or is set somewhere in the class family", 1000)
    ctx.rule("result", "where the other branches of a complete choice end in a result, no branch falls off the end of the function", 100)
    prog = ctx.prog
    ALIAS.clear()
    ALIAS.update(aliases(prog))
    fam = Families(prog)
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        guards = guarded(m.tree)
        owners(m.tree)
        imports(ctx, prog, m, guards)
        names(ctx, prog, m, guards)
        calls(ctx, prog, m, fam, guards)
    for m, q, fn, cls in prog.functions():
        if m.name.startswith(SKIP):
            continue
        ctx.visit(fn)
        bound(ctx, q, fn, guarded(fn))
        result(ctx, q, fn)
    fam.members(ctx)


def guarded(tree):
    """Nodes inside a try body whose handlers catch lookup errors, or after a test for the running environment."""
    out = set()
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and t.handlers:
            for h in t.handlers:
                names = {n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)} if h.type is not None else {"Exception"}
                if names & {"Exception", "BaseException", "ImportError", "ModuleNotFoundError", "NameError", "UnboundLocalError", "AttributeError", "TypeError"}:
                    for s in t.body:
                        out |= {id(n) for n in ast.walk(s)}
        if isinstance(t, ast.If) and "TYPE_CHECKING" in ast.unparse(t.test):
            for s in t.body:
                out |= {id(n) for n in ast.walk(s)}
    return out


def owners(tree):
    def go(n, fn, cls, chain):
        for c in ast.iter_child_nodes(n):
            c._fn, c._cls, c._chain = fn, cls, chain
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                nm = getattr(c, "name", "<lambda>")
                go(c, c, cls if fn is None or cls is not getattr(fn, "_cls", None) else cls, chain + [nm])
            elif isinstance(c, ast.ClassDef):
                go(c, fn, c, chain + [c.name])
            else:
                go(c, fn, cls, chain)
    tree._fn = tree._cls = None
    tree._chain = []
    go(tree, None, None, [])


def dead(st_list):
    """Statements after an unconditional return or raise."""
    out = set()
    gone = False
    for s in st_list:
        if gone:
            out |= {id(n) for n in ast.walk(s)}
        if isinstance(s, (ast.Return, ast.Raise)):
            gone = True
    return out


def dead_nodes(tree):
    out = set()
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                out |= dead(b)
        if isinstance(n, ast.If) and false(n.test):
            for s in n.body:
                out |= {id(x) for x in ast.walk(s)}
    return out


def false(t):
    if isinstance(t, ast.Constant):
        return not t.value
    return isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and any(false(v) for v in t.values)


# -- imports ----------------------------------------------------------------

def imports(ctx, prog, m, guards):
    gone = dead_nodes(m.tree)
    for n in ast.walk(m.tree):
        if id(n) in guards or id(n) in gone:
            continue
        if isinstance(n, ast.ImportFrom):
            src = real(m.abs_import(n.module, n.level))
            if src.split(".")[0] != "qrisp":
                continue
            for al in n.names:
                key = "%s: from %s import %s" % (m.name, src, al.name)
                if src not in prog.modules:
                    ctx.violate("import", key, loc(n), "there is no module %s" % src)
                elif al.name == "*" or has(prog, src, al.name):
                    ctx.ok("import", key)
                else:
                    ctx.violate("import", key, loc(n), "%s does not define %s" % (src, al.name))
        elif isinstance(n, ast.Import):
            for al in n.names:
                if al.name.split(".")[0] == "qrisp":
                    if real(al.name) in prog.modules:
                        ctx.ok("import", "%s: import %s" % (m.name, al.name))
                    else:
                        ctx.violate("import", "%s: import %s" % (m.name, al.name), loc(n), "there is no module %s" % al.name)


def real(mod):
    for a, b in ALIAS.items():
        if mod == a or mod.startswith(a + "."):
            return b + mod[len(a):]
    return mod


def has(prog, mod, name, seen=None):
    """Does the module define the name, directly, through star imports or as a submodule?"""
    seen = seen or set()
    mod = real(mod)
    if mod in seen:
        return False
    seen.add(mod)
    m = prog.modules.get(mod)
    if m is None:
        return mod.split(".")[0] != "qrisp"
    if mod + "." + name in prog.modules or name in module_names(m):
        return True
    for s in star_sources(m):
        if has(prog, s, name, seen):
            return True
    return False


def star_sources(m):
    if not hasattr(m, "_stars"):
        m._stars = [m.abs_import(n.module, n.level) for n in ast.walk(m.tree) if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names)]
    return m._stars


def module_names(m):
    if hasattr(m, "_names"):
        return m._names
    out = set()

    def go(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(s.name)
                continue
            for n in flow.own_walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        out.add((a.asname or a.name).split(".")[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list):
                    go([x for x in b if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.If, ast.Try, ast.With, ast.For))])
            for h in getattr(s, "handlers", []):
                go(h.body)
    go(m.tree.body)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
    # a submodule that was imported becomes an attribute of its package
    if m.is_pkg:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                s = m.abs_import(n.module, n.level)
                if s.startswith(m.name + "."):
                    out.add(s[len(m.name) + 1:].split(".")[0])
    m._names = out
    return out


# -- global names -----------------------------------------------------------

def names(ctx, prog, m, guards):
    gone = dead_nodes(m.tree)
    ext_star = any(s.split(".")[0] != "qrisp" for s in star_sources(m))
    table = symtable.symtable(m.source, m.path, "exec")
    free = {}

    def go(t):
        if t.get_type() != "module":
            for s in t.get_symbols():
                if s.is_referenced() and s.is_global():
                    free.setdefault(s.get_name(), []).append((t.get_name(), t.get_lineno()))
        for c in t.get_children():
            go(c)
    go(table)
    sites = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in free:
            sites.setdefault(n.id, []).append(n)
    for name in sorted(free):
        key = "%s: %s" % (m.name, name)
        if name in BUILTINS or name in module_names(m) or any(has(prog, s, name) for s in star_sources(m) if s.split(".")[0] == "qrisp"):
            ctx.ok("name", key)
            continue
        if ext_star:
            ctx.unresolved("name", key, "star import of another package")
            continue
        live = [n for n in sites.get(name, []) if id(n) not in guards and id(n) not in gone and not is_bound_near(n, name) and not in_annotation(n)]
        if live:
            ctx.violate("name", key, loc(live[0]), "%s is not defined (in %s)" % (name, ".".join(live[0]._chain)))
        else:
            ctx.ok("name", key)


def in_annotation(n):
    f = n._fn
    if f is None or isinstance(f, ast.Lambda):
        return False
    ann = [a.annotation for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs if a.annotation is not None] + ([f.returns] if f.returns else [])
    return any(n is x for a in ann for x in ast.walk(a))


def is_bound_near(n, name):
    """Is the name local to the function chain the node sits in?"""
    f = n._fn
    while f is not None:
        a = f.args
        if name in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}:
            return True
        body = f.body if isinstance(f.body, list) else [f.body]
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
                    return True
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name:
                    return True
                if isinstance(x, (ast.Import, ast.ImportFrom)) and any((al.asname or al.name).split(".")[0] == name for al in x.names):
                    return True
                if isinstance(x, ast.ExceptHandler) and x.name == name:
                    return True
        f = f._fn
    return False


# -- locals -----------------------------------------------------------------

def bound(ctx, q, fn, guards):
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    outer = {n for s in flow.own_walk(fn) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
    stores = set()
    comp = comp_targets(fn)
    for st in flow.own_walk(fn):
        if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store) and id(st) not in comp:
            stores.add(st.id)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            stores |= {(al.asname or al.name).split(".")[0] for al in st.names}
    stores |= {d.name for d in nested_defs(fn)}
    todo = []
    for v in sorted(stores - params - outer):
        # assigned at the top level of the body before anything else reads it
        if top_first(fn, v):
            ctx.ok("bound")
        else:
            todo.append(v)
    if not todo:
        return
    cfg = flow.CFG(fn)
    may, never = reaching(cfg, todo)
    for v in todo:
        key = "%s.%s: %s" % (fn._mod.name, q, v)
        sure = [a for a in never[v] if id(a) not in guards]
        some = [a for a in may[v] if id(a) not in guards]
        if sure:
            ctx.violate("bound", key, loc(sure[0] if hasattr(sure[0], "lineno") else fn), "%s is read here although no path to this point assigns it" % v)
            continue
        i = missing_branch(fn, v, {id(a) for a in some}) if some else None
        if i is None:
            ctx.ok("bound", key)
            continue
        r = unbound(cfg, v)
        if r is None:
            ctx.unresolved("bound", key, "too many paths")
        elif missing_branch(fn, v, {id(h[0]) for h in r if id(h[0]) not in guards}):
            ctx.violate("bound", key, loc(i), "%s is assigned in every branch of the choice but one and read afterwards" % v)
        else:
            ctx.ok("bound", key)


def reaching(cfg, names):
    """For each name the reads that may, and the reads that must, happen before any assignment."""
    names = frozenset(names)
    un = {cfg.entry.id: names}                # may still be unassigned
    asg = {cfg.entry.id: frozenset()}         # may have been assigned
    work = [cfg.entry]
    while work:
        n = work.pop()
        for t, label in n.succ:
            b = bound_by(n, label, names)
            u, a = un[n.id] - b, asg[n.id] | b
            if n.kind == "iter" and label == "f":
                u = u - frozenset(v for v in u if any(binds(s, v) for s in n.ast.body))
            if t.id not in un or not (u <= un[t.id] and a <= asg[t.id]):
                un[t.id] = un.get(t.id, frozenset()) | u
                asg[t.id] = asg.get(t.id, frozenset()) | a
                work.append(t)
    may, never = {v: [] for v in names}, {v: [] for v in names}
    for n in cfg.nodes:
        if n.id not in un:
            continue
        for v in read_by(n, names):
            if v in un[n.id]:
                may[v].append(n.ast)
                if v not in asg[n.id]:
                    never[v].append(n.ast)
    return may, never


def bound_by(n, label, names):
    a = n.ast
    key = (n.id, label == "f" if n.kind == "iter" else 0)
    memo = n.__dict__.setdefault("_bound", {}) if hasattr(n, "__dict__") else {}
    if key in memo:
        return memo[key]
    if a is None or n.kind == "leave":
        r = frozenset()
    elif n.kind == "iter":
        r = frozenset(v for v in names if binds(a.target, v)) if label != "f" else frozenset()
    elif n.kind == "handler":
        r = frozenset({a.name} & names) if isinstance(a, ast.ExceptHandler) and a.name else frozenset()
    elif n.kind == "enter":
        r = frozenset(v for v in names if a.optional_vars is not None and binds(a.optional_vars, v))
    elif isinstance(a, ast.Delete):
        r = frozenset()
    else:
        r = frozenset(v for v in names if binds(a, v))
    memo[key] = r
    return r


def read_by(n, names):
    a = n.ast
    if a is None or n.kind in ("leave", "handler"):
        return set()
    if n.kind == "iter":
        return {v for v in names if reads(a.iter, v)}
    if n.kind == "enter":
        return {v for v in names if reads(a.context_expr, v)}
    if n.kind == "test" and isinstance(a, ast.pattern):
        return set()
    return {v for v in names if reads(a, v) or isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name) and a.target.id == v}


def missing_branch(fn, v, readers):
    """A complete if/elif/else in which one branch that carries on does not assign v, and an unconditional read of v behind it."""
    def blocks(body):
        yield body
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    yield from blocks(b)
            for h in getattr(s, "handlers", []):
                yield from blocks(h.body)
    for body in blocks(fn.body):
        for i, s in enumerate(body):
            if not isinstance(s, ast.If):
                continue
            br = chain(s)
            if br is None:
                continue
            live = [b for b in br if not ends(b)]
            has_it = [b for b in live if any(assigns(x, v) for x in b)]
            if len(live) < 2 or len(has_it) != len(live) - 1:
                continue
            for t in body[i + 1:]:
                if isinstance(t, (ast.If, ast.While)):
                    if id(t.test) in readers:
                        return s
                    break
                if isinstance(t, ast.For):
                    if id(t) in readers and reads(t.iter, v):
                        return s
                    break
                if id(t) in readers:
                    return s
                if assigns(t, v) or not isinstance(t, (ast.Assign, ast.Expr, ast.AugAssign, ast.AnnAssign, ast.Return, ast.Import, ast.ImportFrom)):
                    break
    return None


def assigns(s, v):
    return any(binds(x, v) for x in [s]) or any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == v for x in ast.walk(s)) or any(
        isinstance(x, (ast.Import, ast.ImportFrom)) and binds(x, v) for x in ast.walk(s))


def chain(s):
    """The bodies of a complete if/elif/else, or None without else."""
    out = [s.body]
    while len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
        s = s.orelse[0]
        out.append(s.body)
    return out + [s.orelse] if s.orelse else None


def ends(body):
    last = body[-1]
    if isinstance(last, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(last, ast.If):
        c = chain(last)
        return c is not None and all(ends(b) for b in c)
    if isinstance(last, ast.With):
        return ends(last.body)
    # a call that is never meant to come back
    return isinstance(last, ast.Expr) and isinstance(last.value, ast.Call) and "raise" in ast.unparse(last.value.func).lower()


def result(ctx, q, fn):
    """The closing if/elif/else of a function: every branch returns a value, raises, or none returns a value."""
    body, path = fn.body, []
    while body and isinstance(body[-1], (ast.If, ast.With, ast.Try)):
        last = body[-1]
        if isinstance(last, ast.With):
            body = last.body
            continue
        if isinstance(last, ast.Try):
            return
        c = chain(last)
        if c is None:
            return
        key = "%s.%s" % (fn._mod.name, q)
        val = [b for b in c if ends(b) and gives(b)]
        off = [b for b in c if not ends(b)]
        if len(val) >= 2 and len(off) == 1 and len(val) + len([b for b in c if ends(b) and not gives(b) and raises(b)]) == len(c) - 1:
            ctx.violate("result", key, loc(off[0][0]), "%s ends without a result in this branch, all others return one or raise" % q)
        else:
            ctx.ok("result", key)
        return


def gives(body):
    last = body[-1]
    if isinstance(last, ast.Return):
        return last.value is not None and not (isinstance(last.value, ast.Constant) and last.value.value is None)
    if isinstance(last, ast.If):
        return all(gives(b) or raises(b) for b in chain(last) or [[ast.Pass()]])
    return isinstance(last, ast.With) and gives(last.body)


def raises(body):
    last = body[-1]
    if isinstance(last, ast.If):
        return all(raises(b) for b in chain(last) or [[ast.Pass()]])
    return isinstance(last, ast.Raise)


def nested_defs(fn):
    out = []
    todo = list(fn.body)
    while todo:
        s = todo.pop()
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.append(s)
            continue
        for f in ("body", "orelse", "finalbody"):
            todo += getattr(s, f, []) or [] if isinstance(getattr(s, f, None), list) else []
        for h in getattr(s, "handlers", []):
            todo += h.body
        for c in getattr(s, "cases", []):
            todo += c.body
    return out


def comp_targets(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.comprehension):
            out |= {id(x) for x in ast.walk(n.target)}
    return out


def reads(node, v):
    """Loads of v evaluated by the node itself (comprehension variables shadow it)."""
    out = []

    def go(n):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            if any(isinstance(x, ast.Name) and x.id == v for g in n.generators for x in ast.walk(g.target)):
                go(n.generators[0].iter)
                return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                go(d)
            return
        if isinstance(n, (ast.Lambda, ast.ClassDef)):
            return
        if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load):
            out.append(n)
        for c in ast.iter_child_nodes(n):
            go(c)
    go(node)
    return out


def binds(node, v):
    if node is None:
        return False
    if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        return node.name == v
    if isinstance(node, (ast.Import, ast.ImportFrom)):
        return any((al.asname or al.name).split(".")[0] == v for al in node.names)
    comp = comp_targets(node)
    for n in flow.own_walk(node):
        if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store) and id(n) not in comp:
            return True
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name == v:
            return True
    return False


def top_first(fn, v):
    for s in fn.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
            if binds(s, v) and not reads(s, v):
                return True
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == v:
                return False
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == v:
                return False
            if isinstance(n, (ast.Import, ast.ImportFrom)) and any((al.asname or al.name).split(".")[0] == v for al in n.names):
                return False
    return False


def unbound(cfg, v):
    """A read of v reached on a feasible path without an assignment.  Loops are taken to run at least once."""
    hits = []

    def transfer(node, label, state):
        a = node.ast
        if state or a is None:
            return [state]
        if node.kind == "iter":
            if reads(a.iter, v):
                hits.append((node, a))
            if binds(a.target, v):
                return [True]
            if label == "f" and any(binds(s, v) for s in a.body):
                return []
            return [state]
        if node.kind == "test":
            if isinstance(a, ast.pattern):
                return [binds(a, v)]
            if reads(a, v):
                hits.append((node, a))
            return [binds(a, v)]
        if node.kind == "handler":
            return [a.name == v] if isinstance(a, ast.ExceptHandler) else [state]
        if node.kind == "enter":
            if reads(a.context_expr, v):
                hits.append((node, a))
            return [a.optional_vars is not None and binds(a.optional_vars, v)]
        if node.kind == "leave":
            return [state]
        if isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name) and a.target.id == v:
            hits.append((node, a))
        if isinstance(a, ast.Delete):
            return [state]
        if reads(a, v):
            hits.append((node, a))
        return [binds(a, v)]
    skip_loops = whiles(cfg.fn, v)
    seen, pred = simulate_with_loops(cfg, transfer, skip_loops)
    if seen is None:
        return None
    out = []
    for node in {n.id: n for n, _ in hits}.values():
        states = {item[1] for item in seen[node.id]}
        if False in states:
            item = next(i for i in seen[node.id] if i[1] is False)
            out.append((node.ast if hasattr(node.ast, "lineno") else cfg.fn, flow.trace(cfg, pred, node.id, item), True not in states))
    return out


def whiles(fn, v):
    return {id(w.test) for w in flow.own_walk(fn) if isinstance(w, ast.While) and any(binds(s, v) for s in w.body)}


def simulate_with_loops(cfg, transfer, skip_tests):
    def tr(node, label, state):
        if node.kind == "test" and id(node.ast) in skip_tests and label == "f" and not state:
            return []
        return transfer(node, label, state)
    return flow.simulate(cfg, False, tr, follow_exc=False)


# -- calls ------------------------------------------------------------------

class Families:
    def __init__(self, prog):
        self.prog = prog
        self.cls = {}
        self.dup = set()
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    if n.name in self.cls:
                        self.dup.add(n.name)
                    self.cls[n.name] = (m, n)
        self.stored = set()
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.stored.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        self.stored.add(n.args[1].value)

    def resolve_class(self, m, e):
        if isinstance(e, ast.Name):
            r = self.prog.resolve(m.name, e.id)
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            b = self.prog.resolve(m.name, e.value.id)
            r = self.prog.resolve(b[1], e.attr) if b and b[0] == "module" else None
        else:
            return None
        return (r[1], r[2]) if r and r[0] == "class" else None

    def mro(self, m, c, seen=None):
        """Package classes from c upwards, or None if some base lies outside the package."""
        seen = seen or []
        if c in seen:
            return seen
        out = [c]
        for b in c.bases:
            if isinstance(b, ast.Name) and b.id in ("object", "ABC", "Protocol", "Generic", "Enum") or isinstance(b, ast.Attribute) and b.attr in ("ABC",):
                if isinstance(b, ast.Name) and b.id in ("Enum", "Protocol", "Generic"):
                    return None
                continue
            r = self.resolve_class(m, b)
            if r is None:
                return None
            up = self.mro(r[0], r[1], seen + [c])
            if up is None:
                return None
            out += [x for x in up if x not in out]
        return out

    def method(self, m, c, name):
        fam = self.mro(m, c)
        if fam is None:
            # names found before leaving the package are still certain
            fam = [c]
        for k in fam:
            for s in k.body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    return s
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    return None
        return None

    def members(self, ctx):
        for m in self.prog.modules.values():
            if m.name.startswith(SKIP):
                continue
            for c in ast.walk(m.tree):
                if not isinstance(c, ast.ClassDef):
                    continue
                fam = self.mro(m, c)
                if fam is None or c.decorator_list and any("dataclass" not in ast.unparse(d) for d in c.decorator_list):
                    continue
                known = set(self.stored)
                skip = False
                for k in fam:
                    for s in ast.walk(k):
                        if isinstance(s, ast.FunctionDef):
                            known.add(s.name)
                            skip |= s.name in ("__getattr__", "__getattribute__")
                        elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                            known.add(s.id)
                for sub in self.cls.values():
                    if sub[1] is not c and c in (self.mro(*sub) or []):
                        known |= {s.name for s in sub[1].body if isinstance(s, ast.FunctionDef)}
                if skip:
                    continue
                gone = dead_nodes(c)
                guards = guarded(c)
                for f in c.body:
                    if not isinstance(f, ast.FunctionDef) or not f.args.args or f.args.args[0].arg != "self":
                        continue
                    tested = {n.args[1].value for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr")
                              and len(n.args) > 1 and isinstance(n.args[1], ast.Constant)}
                    for n in ast.walk(f):
                        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
                            if id(n) in gone or id(n) in guards or n.attr in tested or n.attr.startswith("__"):
                                continue
                            key = "%s.%s.%s" % (m.name, c.name, n.attr)
                            if n.attr in known:
                                ctx.ok("member", key)
                            else:
                                ctx.violate("member", key, loc(n), "%s reads self.%s, which no class of its family defines and nothing sets" % (f.name, n.attr))


def calls(ctx, prog, m, fam, guards):
    gone = dead_nodes(m.tree)
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Call) or id(n) in guards or id(n) in gone:
            continue
        t = target(prog, m, fam, n)
        if t is None:
            continue
        kind, fn, skip_first, label = t
        if fn is None:
            # class without constructor of its own
            continue
        key = "%s: %s in %s" % (m.name, label, ".".join(n._chain))
        why = mismatch(n, fn, skip_first)
        if why is None:
            ctx.unresolved("call", key, "arguments are unpacked")
        elif why:
            ctx.violate("call", key, loc(n), "%s: %s" % (label, why))
        else:
            ctx.ok("call", key)


def plain(fn):
    """A function whose decorators keep its signature."""
    for d in fn.decorator_list:
        t = ast.unparse(d)
        if t.split(".")[-1].split("(")[0] not in ("staticmethod", "classmethod", "njit", "jit", "abstractmethod", "lru_cache", "cache", "wraps"):
            return False
    return True


def local_def(n, name):
    """The function or None a name refers to inside the enclosing functions; False if bound to something else."""
    f = n._fn
    while f is not None:
        if isinstance(f, ast.Lambda):
            if name in {x.arg for x in f.args.args}:
                return False
            f = f._fn
            continue
        a = f.args
        if name in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}:
            return False
        defs = [d for d in nested_defs(f) if d.name == name]
        others = [x for x in flow.own_walk(f) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
        imps = [x for x in flow.own_walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) and any((al.asname or al.name).split(".")[0] == name for al in x.names)]
        if imps:
            return imps[0] if len(imps) == 1 and not defs and not others else False
        if defs or others:
            return defs[0] if len(defs) == 1 and not others else False
        f = f._fn
    return None


def target(prog, m, fam, n):
    f = n.func
    if isinstance(f, ast.Name):
        l = local_def(n, f.id)
        if l is False:
            return None
        if isinstance(l, ast.ImportFrom):
            src = m.abs_import(l.module, l.level)
            al = [x for x in l.names if (x.asname or x.name) == f.id][0]
            r = prog.resolve_from(src, al.name) if src.split(".")[0] == "qrisp" else None
        elif isinstance(l, ast.FunctionDef):
            r = ("def", m, l)
        elif l is not None:
            return None
        else:
            r = prog.resolve(m.name, f.id)
        return entity(fam, r, f.id)
    if isinstance(f, ast.Attribute):
        if isinstance(f.value, ast.Name) and f.value.id == "self" and n._cls is not None:
            c = n._cls
            s = fam.method(m, c, f.attr)
            if s is None or overridden(fam, c, f.attr) or not plain(s) or f.attr in instance_attrs(c):
                return None
            static = any(ast.unparse(d) == "staticmethod" for d in s.decorator_list)
            return ("def", s, not static, "%s.%s" % (c.name, f.attr))
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and n._cls is not None:
            up = fam.mro(m, n._cls)
            if up is None:
                return None
            for k in up[1:]:
                for s in k.body:
                    if isinstance(s, ast.FunctionDef) and s.name == f.attr:
                        return ("def", s, True, "%s.%s" % (k.name, f.attr)) if plain(s) else None
            return None
        if isinstance(f.value, ast.Name) and local_def(n, f.value.id) is None:
            b = prog.resolve(m.name, f.value.id)
            if b and b[0] == "module":
                return entity(fam, prog.resolve(b[1], f.attr), f.attr)
            if b and b[0] == "class":
                s = fam.method(b[1], b[2], f.attr)
                if s is None or not plain(s):
                    return None
                cm = any(ast.unparse(d) == "classmethod" for d in s.decorator_list)
                return ("def", s, cm, "%s.%s" % (f.value.id, f.attr))
    return None


def instance_attrs(c):
    return {n.attr for n in ast.walk(c) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self"}


def overridden(fam, c, name):
    for sub in fam.cls.values():
        if sub[1] is not c and c in (fam.mro(*sub) or []) and any(isinstance(s, ast.FunctionDef) and s.name == name for s in sub[1].body):
            return True
    return False


def entity(fam, r, label):
    if not r:
        return None
    if r[0] == "def":
        same = [s for s in ast.walk(r[1].tree) if isinstance(s, ast.FunctionDef) and s.name == r[2].name and s is not r[2] and getattr(s, "_fn", None) is None
                and getattr(s, "_cls", None) is None]
        return ("def", r[2], False, label) if plain(r[2]) and not same else None
    if r[0] == "class":
        if r[2].decorator_list or r[2].keywords:
            return None
        up = fam.mro(r[1], r[2])
        if up is None:
            up = [r[2]]
            if not any(isinstance(s, ast.FunctionDef) and s.name == "__init__" for s in r[2].body):
                return None
        for k in up:
            if any(isinstance(s, ast.FunctionDef) and s.name == "__new__" for s in k.body):
                return None
            for s in k.body:
                if isinstance(s, ast.FunctionDef) and s.name == "__init__":
                    return ("class", s, True, label) if plain(s) else None
    return None


def mismatch(call, fn, skip_first):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][1 if skip_first else 0:]
    ndef = len(a.defaults)
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    kws = [k.arg for k in call.keywords if k.arg]
    posonly = {x.arg for x in a.posonlyargs}
    allowed = (set(pos) | {x.arg for x in a.kwonlyargs}) - posonly
    if a.kwarg is None:
        for k in kws:
            if k not in allowed:
                return "there is no parameter %s" % k
    if star:
        return None
    n = len(call.args)
    if n > len(pos) and a.vararg is None:
        return "%d positional arguments for %d parameters" % (n, len(pos))
    for k in kws:
        if k in pos[:n]:
            return "parameter %s is given twice" % k
    if dstar:
        return None
    need = pos[:len(pos) - ndef] if ndef else pos
    for p in need[n:]:
        if p not in kws:
            return "parameter %s is missing" % p
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in kws:
            return "parameter %s is missing" % x.arg
    return ""
