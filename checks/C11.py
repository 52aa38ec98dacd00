"""Options take effect: none is ignored, lost on the way, mixed up with another, or has an undocumented default."""
import ast
import json
import os
import re

from checks import C10
from sa import flow
from sa.loader import loc

SKIP = ("qrisp.examples", "qrisp.jasp.mlir", "qrisp.jasp.interpreter_tools.interpreters", "qrisp.jasp.primitives", "qrisp.simulator.bi_array")
HERE = os.path.dirname(os.path.abspath(__file__))


def table():
    with open(os.path.join(HERE, "options.json")) as f:
        return json.load(f)


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def defaults(fn):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    out = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    out.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return out


def literal(e):
    """Value of a plain constant default; None for anything computed or mutable."""
    try:
        v = ast.literal_eval(e)
    except (ValueError, TypeError, SyntaxError):
        return None
    return v if isinstance(v, (bool, int, float, str)) else None


def documentation(fn, cls):
    d = ast.get_docstring(fn) or ""
    if fn.name == "__init__" and cls is not None:
        d += "\n" + (ast.get_docstring(cls) or "")
    return d


def entries(doc):
    """(parameter, its description) for every entry of a parameter list in a docstring."""
    lines = doc.splitlines()
    for i, l in enumerate(lines):
        m = re.match(r"^(\s*)(\*{0,2}\w+(?:\s*,\s*\w+)*)\s*:(?!:)\s*(.*)$", l)
        if not m:
            continue
        body = [m.group(3)]
        for t in lines[i + 1:]:
            if t.strip() and len(t) - len(t.lstrip()) <= len(m.group(1)):
                break
            body.append(t.strip())
        for p in m.group(2).split(","):
            yield p.strip().lstrip("*"), " ".join(body)


DEFAULT = re.compile(r"\b(?:[Tt]he )?[Dd]efault(?:s)?(?: value)?(?: is| to|:)\s*(``[^`]+``|`[^`]+`|\"[^\"]*\"|'[^']*'|[-+]?[\w.]*\w)")


def documented_default(text):
    """The constant a description states as default, as (value,); None if it states none or describes it in words."""
    for m in DEFAULT.finditer(text):
        t = m.group(1)
        quoted = t[0] in "`\"'"
        t = t.strip("`")
        try:
            v = ast.literal_eval(t)
        except (ValueError, SyntaxError):
            if not quoted or not re.fullmatch(r"[A-Za-z_][\w-]*", t):
                return None
            v = t
        return (v,) if v is None or isinstance(v, (bool, int, float, str)) else None
    return None


def run(ctx):
    ctx.rule("accepted", "an option of the interface is still accepted under its name and position, with the same constant default", 300)
    ctx.rule("default", "the default in the parameter list is the one the documentation states", 100)
    ctx.rule("used", "the value given for a parameter reaches a statement other than its validation", 800)
    ctx.rule("kept", "what a constructor stores of its parameters is read somewhere", 60)
    ctx.rule("passed", "an option is passed on to a routine of the package that accepts the same option", 150)
    ctx.rule("mixed", "an argument is not bound to another parameter while a parameter of its own name is there", 800)
    tab = table()
    prog = ctx.prog
    fam = C10.Families(prog)
    fns = [(m, q, fn, cls) for m, q, fn, cls in prog.functions() if not m.name.startswith(SKIP)]
    with open(os.path.join(HERE, "api.json")) as f:
        api = set(json.load(f))
    for m in prog.modules.values():
        if not m.name.startswith("qrisp.examples"):
            C10.owners(m.tree)
    methods = {}
    for m, q, fn, cls in prog.functions():
        if cls is not None and q == cls.name + "." + fn.name:
            methods.setdefault(fn.name, []).append(fn)
    accepted(ctx, fns, tab)
    for m, q, fn, cls in fns:
        ctx.visit(fn)
        default(ctx, m, q, fn, cls)
        used(ctx, m, q, fn, cls, api, tab)
    kept(ctx, fns, prog, tab)
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        gone = C10.dead_nodes(m.tree)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and id(n) not in gone and n._fn is not None:
                call(ctx, prog, m, fam, methods, n, tab)


# -- the interface ------------------------------------------------------------

def accepted(ctx, fns, tab):
    here = {}
    for m, q, fn, cls in fns:
        here.setdefault(q, []).append(fn)
    for q, want in tab["interface"].items():
        if len(here.get(q, [])) != 1:
            continue            # moved, wrapped or defined twice; whether it exists is decided elsewhere
        fn = here[q][0]
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        names = params(fn)
        d = defaults(fn)
        key = q
        bad = None
        for i, p in enumerate(want["positional"]):
            if p not in names:
                if a.kwarg is None:
                    bad = "parameter %s is gone" % p
                    break
                continue
            if p in pos and pos.index(p) != i and not (a.vararg and pos.index(p) > i):
                bad = "parameter %s moved from position %d to %d" % (p, i, pos.index(p))
                break
        if bad:
            ctx.violate("accepted", key, loc(fn), bad)
            continue
        for p, v in want["defaults"].items():
            if p not in names:
                continue
            if p not in d:
                ctx.violate("accepted", "%s(%s)" % (q, p), loc(fn), "parameter %s can no longer be left out" % p)
                continue
            now = literal(d[p])
            if now is None or (now == v and isinstance(now, bool) == isinstance(v, bool)):
                ctx.ok("accepted", "%s(%s=%r)" % (q, p, v))
            else:
                ctx.violate("accepted", "%s(%s)" % (q, p), loc(fn), "leaving out %s now means %r instead of %r" % (p, now, v))


def default(ctx, m, q, fn, cls):
    d = defaults(fn)
    if not d:
        return
    for p, text in entries(documentation(fn, cls)):
        if p not in d:
            continue
        says = documented_default(text)
        if says is None:
            continue
        key = "%s.%s(%s)" % (m.name, q, p)
        try:
            has = ast.literal_eval(d[p])
        except (ValueError, TypeError, SyntaxError):
            continue
        if has is None and says[0] is not None or isinstance(has, (list, dict, tuple)) or has == -1 and isinstance(says[0], str):
            continue            # a stand-in that the body replaces
        if has == says[0] and isinstance(has, bool) == isinstance(says[0], bool):
            ctx.ok("default", key)
        else:
            ctx.violate("default", key, loc(fn), "documented default %r, actual default %r" % (says[0], has))


# -- inside one function --------------------------------------------------------

def trivial(fn):
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in body) or any("abstractmethod" in ast.unparse(d) or "overload" in ast.unparse(d) for d in fn.decorator_list)


def validation(fn):
    """Nodes that only serve to refuse a call: the tests of branches that do nothing but raise or warn, and what is raised."""
    out = set()
    for s in ast.walk(fn):
        if isinstance(s, ast.If) and not s.orelse and all(isinstance(b, ast.Raise) or isinstance(b, ast.Expr) and isinstance(b.value, ast.Call)
                                                          and "warn" in ast.unparse(b.value.func) for b in s.body):
            out |= {id(x) for x in ast.walk(s)}
        elif isinstance(s, (ast.Raise, ast.Assert)):
            out |= {id(x) for x in ast.walk(s)}
    return out


def used(ctx, m, q, fn, cls, api, tab):
    if trivial(fn) or q.count(".") > (1 if cls is not None else 0):
        return
    a = fn.args
    names = params(fn) + [x.arg for x in (a.vararg, a.kwarg) if x]
    doc = {p for p, _ in entries(documentation(fn, cls))}
    skip = validation(fn)
    gone = C10.dead_nodes(fn)
    direct, later = {}, set()
    inner = {id(x) for s in ast.walk(fn) if s is not fn and isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for x in ast.walk(s)}
    for s in fn.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in gone:
                if id(x) in inner or id(x) in skip:
                    later.add((x.id, id(x) in skip))
                else:
                    direct.setdefault(x.id, []).append(x)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                direct.setdefault(x.target.id, []).append(x)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "eval", "exec"):
                return
    lost = None
    for p in names:
        if p in ("self", "cls") or p.startswith("_"):
            continue
        if p not in doc and q not in api:
            continue
        key = "%s(%s)" % (q, p)
        if key in tab["inert"]:
            continue
        if (p, False) in later:
            ctx.ok("used", key)
            continue
        if p not in direct:
            # validated and nothing else: fine if refusing is all it can do
            if (p, True) in later and key in tab["validated"]:
                ctx.ok("used", key)
                continue
            ctx.violate("used", key, loc(fn), "the value given for %s has no effect%s" % (p, " beyond being checked" if (p, True) in later else ""))
            continue
        if lost is None:
            lost = overwritten(fn, names)
        if p in lost:
            ctx.violate("used", key, loc(fn), "%s is overwritten before it is read" % p)
        else:
            ctx.ok("used", key)


def overwritten(fn, names):
    """Parameters whose given value no read can see."""
    stored = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} & set(names)
    if not stored:
        return set()
    cfg = flow.CFG(fn)
    may, _ = C10.reaching(cfg, stored)
    return {p for p in stored if not may[p]}


def kept(ctx, fns, prog, tab):
    read = set()
    dyn = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                read.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                dyn.add(n.args[1].value)
    for m, q, fn, cls in fns:
        if cls is None or fn.name != "__init__" or not fn.args.args:
            continue
        me = fn.args.args[0].arg
        ps = set(params(fn)) - {me}
        doc = {p for p, _ in entries(documentation(fn, cls))}
        for s in ast.walk(fn):
            if not isinstance(s, ast.Assign):
                continue
            src = {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} & ps & doc
            for t in s.targets:
                if src and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                    key = "%s.%s <- %s" % (q, t.attr, ",".join(sorted(src)))
                    others = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id in src and isinstance(x.ctx, ast.Load) and not any(x is y for y in ast.walk(s))]
                    if t.attr in read or t.attr in dyn or key in tab["inert"] or others or not t.attr.startswith("_"):
                        ctx.ok("kept", key)
                    else:
                        ctx.violate("kept", key, loc(s), "%s is stored in %s, which nothing reads" % (",".join(sorted(src)), t.attr))


# -- between functions ----------------------------------------------------------

def enclosing(n):
    """Names of the parameters and variables visible at a node, innermost function first."""
    f = n._fn
    while f is not None:
        yield f
        f = f._fn


def targets(prog, m, fam, methods, n):
    t = C10.target(prog, m, fam, n)
    if t is not None:
        return ([(t[1], t[2])], t[3]) if t[1] is not None else None
    f = n.func
    if isinstance(f, ast.Attribute):
        c = methods.get(f.attr, [])
        if c and len(c) <= 4 and not (isinstance(f.value, ast.Name) and prog.resolve(m.name, f.value.id) and C10.local_def(n, f.value.id) is None) \
                and f.attr not in ("append", "copy", "get", "update", "extend", "insert", "pop", "index", "count", "sort", "reverse", "remove", "run", "compile", "control"):
            if all(C10.plain(x) and not any(ast.unparse(d) == "staticmethod" for d in x.decorator_list) for x in c):
                return [(x, True) for x in c], "?." + f.attr
    return None


def bindings(fn, skip, n):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][1 if skip else 0:]
    return list(zip(pos, n.args)) + [(k.arg, k.value) for k in n.keywords if k.arg]


def simple(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
        return e.attr
    return None


def spent(allowed, key):
    """One of the sites that are known to choose their own value; a further site is not."""
    allowed[key] = allowed.get(key, 0) - 1
    return allowed[key] >= 0


def chosen(n, p):
    """Does the call sit in a branch that was chosen by looking at p?"""
    for g in enclosing(n):
        if isinstance(g, ast.Lambda):
            continue
        for s in ast.walk(g):
            if isinstance(s, (ast.If, ast.IfExp, ast.While, ast.Match)):
                t = s.subject if isinstance(s, ast.Match) else s.test
                if any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(t)) and any(x is n for x in ast.walk(s)):
                    return True
    return False


def call(ctx, prog, m, fam, methods, n, tab):
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        return
    t = targets(prog, m, fam, methods, n)
    if t is None:
        return
    cands, label = t
    where = ".".join(n._chain)
    f = n._fn
    # the function whose options are meant: the call's own, or the ones around it
    mine, seen = [], set()
    for g in enclosing(n):
        if isinstance(g, ast.Lambda):
            seen |= {x.arg for x in g.args.args}
            continue
        for p in params(g):
            if p not in seen and p not in ("self", "cls"):
                mine.append(p)
        seen |= set(params(g)) | {x.id for x in flow.own_walk(g) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    sure = [b for b in cands]
    given = [dict(bindings(fn, skip, n)) for fn, skip in sure]
    for p in mine:
        if not all(p in defaults(fn) for fn, _ in sure):
            continue
        key = "%s -> %s(%s)" % (where, label, p)
        if all(p in g for g in given):
            fixed = [g[p] for g in given if isinstance(g[p], ast.Constant)]
            if fixed and len(fixed) == len(given) and not chosen(n, p):
                if spent(tab["own"], key):
                    continue
                ctx.violate("passed", key, loc(n), "%s is accepted by %s but %s is always called with %r" % (p, where, label, fixed[0].value))
            else:
                ctx.ok("passed", key)
        elif not any(p in g for g in given) and not chosen(n, p):
            if spent(tab["own"], key):
                continue
            ctx.violate("passed", key, loc(n), "%s is accepted by %s but not passed on to %s" % (p, where, label))
    # arguments bound to the wrong parameter
    local = set()
    for g in enclosing(n):
        local |= {x.arg for x in g.args.args + g.args.kwonlyargs + g.args.posonlyargs}
        if not isinstance(g, ast.Lambda):
            local |= {x.id for x in flow.own_walk(g) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    for (fn, skip), g in zip(sure, given):
        if len(sure) > 1:
            break
        allp = set(params(fn))
        for p, e in g.items():
            x = simple(e)
            if x is None or x not in allp or x == "self":
                continue
            key = "%s -> %s(%s <- %s)" % (where, label, p, x)
            if x == p:
                ctx.ok("mixed", key)
                continue
            own = simple(g[x]) if x in g else None
            if spent(tab["crossed"], key):
                continue
            # only where the argument of that name is at hand as well
            if own == p or isinstance(e, ast.Name) and p in local and x in local and x not in g:
                ctx.violate("mixed", key, loc(n), "%s is passed as %s although %s has a parameter %s" % (x, p, label, x))
            else:
                ctx.unresolved("mixed", key, "no counterpart")
