"""Requests that cannot be carried out are refused, and stay refused."""
import ast
import itertools
import json
import os

from checks import C10
from sa import flow
from sa.loader import loc

SKIP = ("qrisp.examples",)
HERE = os.path.dirname(os.path.abspath(__file__))


# -- conditions -----------------------------------------------------------------
# A condition is a nested tuple: ("and", ...), ("or", ...), ("not", c), ("cmp", left, right, set of "<=>"),
# ("enum", subject, constant), ("atom", text), True or False.

ORDER = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "=", ast.NotEq: "<>"}
FLIP = {"<": ">", ">": "<", "=": "="}


def neg(c):
    if isinstance(c, bool):
        return not c
    if c[0] == "not":
        return c[1]
    return ("not", c)


def both(cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs):
        return False
    return True if not cs else cs[0] if len(cs) == 1 else ("and",) + tuple(cs)


def either(cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs):
        return True
    return False if not cs else cs[0] if len(cs) == 1 else ("or",) + tuple(cs)


class Inline(ast.NodeTransformer):
    def __init__(self, table):
        self.table = table
        self.depth = 0

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.table and self.depth < 4:
            self.depth += 1
            r = self.visit(copy_tree(self.table[n.id]))
            self.depth -= 1
            return r
        return n


def copy_tree(e):
    return ast.parse(ast.unparse(e), mode="eval").body


def inlinable(fn):
    """Locals that are given a simple value exactly once."""
    count, val = {}, {}
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        count[x.arg] = 1
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            count[n.id] = count.get(n.id, 0) + 1
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and plain_value(n.value):
            val[n.targets[0].id] = n.value
    return {k: v for k, v in val.items() if count.get(k) == 1 and not any(isinstance(x, ast.Name) and (count.get(x.id, 0) > 1 or x.id == k) for x in ast.walk(v))}


def plain_value(v):
    for n in ast.walk(v):
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ("len", "isinstance", "type", "set", "int", "hasattr", "callable", "jlen")):
            return False
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Await, ast.Yield, ast.NamedExpr, ast.IfExp)):
            return False
    return True


def text(e):
    return ast.unparse(e)


def const(e):
    if isinstance(e, ast.Constant):
        return (repr(e.value),)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        return ("-" + repr(e.operand.value),)
    return None


def cond(e, table):
    e = Inline(table).visit(copy_tree(e))
    return cond_(e)


def cond_(e):
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.BoolOp):
        return (both if isinstance(e.op, ast.And) else either)([cond_(v) for v in e.values])
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return neg(cond_(e.operand))
    if isinstance(e, ast.Compare):
        parts, l = [], e.left
        for op, r in zip(e.ops, e.comparators):
            parts.append(compare(l, op, r))
            l = r
        return both(parts)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
        k = e.args[1]
        ks = k.elts if isinstance(k, (ast.Tuple, ast.List)) else [k]
        out = []
        for k in ks:
            t = text(k)
            out.append(("enum", text(e.args[0]), "None") if t in ("type(None)", "NoneType") else ("atom", "isinstance(%s, %s)" % (text(e.args[0]), t.split(".")[-1])))
        return either(out)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len":
        return ("not", ("enum", text(e), "0"))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
        return cond_(e.args[0])
    return ("atom", text(e))


def compare(l, op, r):
    if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
        pos = isinstance(op, (ast.Eq, ast.Is))
        if const(l) and not const(r):
            l, r = r, l
        if const(r):
            if isinstance(r, ast.Constant) and r.value is True:
                c = cond_(l)
            elif isinstance(r, ast.Constant) and r.value is False:
                c = neg(cond_(l))
            else:
                c = ("enum", text(l), const(r)[0])
            return c if pos else neg(c)
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = ("atom", " is ".join(sorted((text(l), text(r)))))
            return c if pos else neg(c)
    if isinstance(op, (ast.In, ast.NotIn)):
        if isinstance(r, (ast.Tuple, ast.List, ast.Set)) and all(const(x) for x in r.elts):
            c = either([("enum", text(l), const(x)[0]) for x in r.elts])
        elif isinstance(r, (ast.Tuple, ast.List, ast.Set)):
            c = either([compare(l, ast.Eq(), x) for x in r.elts])
        elif isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr == "keys":
            c = ("atom", "%s in %s" % (text(l), text(r.func.value)))
        else:
            c = ("atom", "%s in %s" % (text(l), text(r)))
        return c if isinstance(op, ast.In) else neg(c)
    s = ORDER.get(type(op))
    if s is None:
        return ("atom", text(ast.Compare(left=l, ops=[op], comparators=[r])))
    a, b = text(l), text(r)
    # x > 0 for a length, x >= 1: bring the bound to one form
    if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and isinstance(r, ast.Constant) and type(r.value) is int:
        v = r.value
        if s == ">=":
            s, v = ">", v - 1
        elif s == "<":
            s, v = "<=", v - 1
        if v == 0 and s in (">", "<="):
            c = ("enum", a, "0")
            return neg(c) if s == ">" else c
        b = repr(v)
    elif isinstance(r, ast.Constant) and isinstance(l, ast.Constant):
        return ("atom", text(ast.Compare(left=l, ops=[op], comparators=[r])))
    if b < a:
        a, b, s = b, a, "".join(FLIP[x] for x in s)
    return ("cmp", a, b, "".join(sorted(s)))


def variables(c, out=None):
    out = {} if out is None else out
    if isinstance(c, bool):
        return out
    if c[0] in ("and", "or", "not"):
        for x in c[1:]:
            variables(x, out)
    elif c[0] == "cmp":
        out.setdefault(("cmp", c[1], c[2]), set()).update("<=>")
    elif c[0] == "enum":
        out.setdefault(("enum", c[1]), set()).add(c[2])
    else:
        out.setdefault(("atom", c[1]), set())
    return out


def value(c, env):
    """Truth of a condition; None if it mentions something outside env."""
    if isinstance(c, bool):
        return c
    if c[0] == "not":
        v = value(c[1], env)
        return None if v is None else not v
    if c[0] in ("and", "or"):
        vs = [value(x, env) for x in c[1:]]
        if c[0] == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if c[0] == "cmp":
        v = env.get(("cmp", c[1], c[2]))
        return None if v is None else v in c[3]
    if c[0] == "enum":
        v = env.get(("enum", c[1]))
        return None if v is None else v == c[2]
    return env.get(("atom", c[1]))


def domain(k, values):
    return sorted("<=>") if k[0] == "cmp" else sorted(values) + ["<other>"] if k[0] == "enum" else [False, True]


def size(dom):
    n = 1
    for d in dom:
        n *= len(d)
    return n


def implies(f, g):
    """'yes', 'no' (a case of f in which g is certainly or possibly not met, with every variable of f known to g) or 'open'."""
    vf, vg = variables(f), variables(g)
    names = sorted(vf)
    dom = [domain(k, vf[k]) for k in names]
    if size(dom) > 200000:
        return "open"
    open_ = False
    for vals in itertools.product(*dom):
        env = dict(zip(names, vals))
        if value(f, env) is not True:
            continue
        r = value(g, env)
        if r is False:
            return "no"
        if r is None:
            open_ = True
    if not open_ or covers(f, g, vf, vg):
        return "yes"
    return "no" if set(vf) <= set(vg) else "open"


def covers(f, g, vf, vg):
    """Whether g is met in every case of f, whatever the variables that only g has."""
    names = sorted(set(vf) | set(vg))
    dom = [domain(k, set(vf.get(k) or ()) | set(vg.get(k) or ())) for k in names]
    if size(dom) > 200000:
        return False
    for vals in itertools.product(*dom):
        env = dict(zip(names, vals))
        if value(f, env) is True and value(g, env) is not True:
            return False
    return True


# Comparisons of arithmetic expressions are decided over small integer values of their parts.

VALUES = (-1, 0, 1, 2, 3)
ARITH = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.FloorDiv: lambda a, b: a // b,
         ast.Mod: lambda a, b: a % b, ast.Div: lambda a, b: a / b, ast.Pow: lambda a, b: a**b}


def parts(e, out):
    if isinstance(e, ast.BinOp) and type(e.op) in ARITH:
        parts(e.left, out)
        parts(e.right, out)
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        parts(e.operand, out)
    elif isinstance(e, ast.Constant) and type(e.value) in (int, float):
        pass
    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("min", "max") and not e.keywords and len(e.args) == 1:
        out.update({("min", text(e.args[0])), ("max", text(e.args[0]))})
    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("min", "max", "abs", "int") and not e.keywords:
        for a in e.args:
            parts(a, out)
    else:
        out.add(("", text(e)))
    return out


def number(e, env):
    if isinstance(e, ast.BinOp) and type(e.op) in ARITH:
        return ARITH[type(e.op)](number(e.left, env), number(e.right, env))
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        v = number(e.operand, env)
        return -v if isinstance(e.op, ast.USub) else v
    if isinstance(e, ast.Constant) and type(e.value) in (int, float):
        return e.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("min", "max") and not e.keywords and len(e.args) == 1:
        return env[(e.func.id, text(e.args[0]))]
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("min", "max", "abs", "int") and not e.keywords:
        return {"min": min, "max": max, "abs": abs, "int": int}[e.func.id](*[number(a, env) for a in e.args])
    return env[("", text(e))]


TREES = {}


def tree(t):
    if t not in TREES:
        TREES[t] = ast.parse(t, mode="eval").body
    return TREES[t]


def is_number(t):
    e = tree(t)
    return isinstance(e, ast.Constant) and type(e.value) in (int, float) or isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant) and type(e.operand.value) in (int, float)


def leaves(c, out):
    """Parts of a condition: numbers, named values and truth values; False if they cannot be told apart."""
    if isinstance(c, bool):
        return True
    if c[0] in ("and", "or", "not"):
        return all([leaves(x, out) for x in c[1:]])
    if c[0] == "cmp":
        for t in c[1:3]:
            for x in parts(tree(t), set()):
                out.setdefault(("num",) + x, set())
    elif c[0] == "enum" and is_number(c[2]):
        for x in parts(tree(c[1]), set()):
            out.setdefault(("num",) + x, set())
    elif c[0] == "enum":
        out.setdefault(("enum", c[1]), set()).add(c[2])
    else:
        out.setdefault(("atom", c[1]), set())
    return True


def truth(c, env, num):
    if isinstance(c, bool):
        return c
    if c[0] == "not":
        return not truth(c[1], env, num)
    if c[0] in ("and", "or"):
        return (all if c[0] == "and" else any)([truth(x, env, num) for x in c[1:]])
    if c[0] == "cmp":
        a, b = number(tree(c[1]), num), number(tree(c[2]), num)
        return ("<" if a < b else ">" if a > b else "=") in c[3]
    if c[0] == "enum" and is_number(c[2]):
        return number(tree(c[1]), num) == number(tree(c[2]), num)
    if c[0] == "enum":
        return env[("enum", c[1])] == c[2]
    return env[("atom", c[1])]


def numeric(f, g):
    """Like implies, with arithmetic; 'no' only if both conditions speak about the same parts."""
    lf, lg = {}, {}
    if not leaves(f, lf) or not leaves(g, lg):
        return "open"
    nums = [k for k in lg if k[0] == "num"]
    if not set(lf) <= set(lg) or not nums:
        return "open"
    subjects = {k[2] for k in nums}
    if any(k[0] == "enum" and k[1] in subjects for k in lg):
        return "open"          # compared with names and with numbers
    names, dom = sorted(lg), []
    for k in names:
        low = 0 if k[0] == "num" and k[2].startswith(("len(", "jlen(")) else None
        dom.append([v for v in VALUES if low is None or v >= low] if k[0] == "num" else sorted(lg[k] | lf.get(k, set())) + ["<other>"] if k[0] == "enum" else [False, True])
    n = 1
    for d in dom:
        n *= len(d)
    if n > 100000:
        return "open"
    hit = False
    for vals in itertools.product(*dom):
        env = dict(zip(names, vals))
        num = {k[1:]: v for k, v in env.items() if k[0] == "num"}
        if any(k[0] == "min" and ("max", k[1]) in num and v > num[("max", k[1])] for k, v in num.items()):
            continue
        try:
            if truth(f, env, num):
                hit = True
                if not truth(g, env, num):
                    return "no"
        except (ArithmeticError, ValueError, TypeError):
            continue
    return "yes" if hit else "open"


def satisfiable(f):
    return f is not False


# -- refusals of one function -----------------------------------------------------

def refusals(fn):
    """(condition, what is raised, node) for every raise and assert of the function's own body."""
    table = inlinable(fn)
    out = []

    def block(body, path):
        path = list(path)
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(s, ast.Raise):
                if s.exc is not None:
                    out.append((both(path), raised(s), s))
                return
            if isinstance(s, ast.Assert):
                c = cond(s.test, table)
                out.append((both(path + [neg(c)]), "AssertionError", s))
                path.append(c)
                continue
            if isinstance(s, ast.If):
                c = cond(s.test, table)
                block(s.body, path + [c])
                block(s.orelse, path + [neg(c)])
                if C10.ends(s.body) and not (s.orelse and C10.ends(s.orelse)):
                    path.append(neg(c))
                elif s.orelse and C10.ends(s.orelse) and not C10.ends(s.body):
                    path.append(c)
                elif s.orelse and C10.ends(s.body) and C10.ends(s.orelse):
                    return
                continue
            if isinstance(s, (ast.For, ast.AsyncFor)):
                block(s.body, path)
                block(s.orelse, path + [("atom", "loop over %s ran out" % text(s.iter))])
            elif isinstance(s, ast.While):
                c = cond(s.test, table)
                block(s.body, path + [c])
                block(s.orelse, path)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                block(s.body, path)
            elif isinstance(s, ast.Try):
                block(s.body, path)
                for h in s.handlers:
                    block(h.body, path + [("atom", "caught %s" % (text(h.type) if h.type is not None else "anything"))])
                block(s.orelse, path)
                block(s.finalbody, path)
            elif isinstance(s, ast.Match):
                subj = text(Inline(table).visit(copy_tree(s.subject)))
                before = []
                for c in s.cases:
                    p = pattern(c.pattern, subj)
                    if c.guard is not None:
                        p = both([p, cond(c.guard, table)])
                    block(c.body, path + [neg(x) for x in before] + [p])
                    before.append(p)
    block(fn.body, [])
    return out


def pattern(p, subj):
    if isinstance(p, ast.MatchValue):
        return ("enum", subj, const(p.value)[0]) if const(p.value) else ("atom", "%s == %s" % (subj, text(p.value)))
    if isinstance(p, ast.MatchSingleton):
        return ("enum", subj, repr(p.value))
    if isinstance(p, ast.MatchOr):
        return either([pattern(x, subj) for x in p.patterns])
    if isinstance(p, ast.MatchAs) and p.pattern is None:
        return True
    if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
        return ("atom", "isinstance(%s, %s)" % (subj, text(p.cls).split(".")[-1]))
    return ("atom", "%s matches %s" % (subj, text(p)))


def raised(s):
    e = s.exc
    f = e.func if isinstance(e, ast.Call) else e
    return text(f).split(".")[-1]


def trivial(fn):
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise) or any("abstractmethod" in text(d) for d in fn.decorator_list)


def tolist(c):
    return c if isinstance(c, bool) else [tolist(x) if isinstance(x, tuple) else x for x in c]


def fromlist(c):
    return c if isinstance(c, bool) else tuple(fromlist(x) if isinstance(x, list) else x for x in c)


def collect(prog):
    out = {}
    for m, q, fn, cls in prog.functions():
        if m.name.startswith(SKIP) or trivial(fn):
            continue
        r = [x for x in refusals(fn) if satisfiable(x[0])]
        out.setdefault(q, []).append((m, fn, r))
    return out


def callees(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name):
                out.add(n.func.id)
            elif isinstance(n.func, ast.Attribute):
                out.add(n.func.attr)
        elif isinstance(n, ast.Name):
            out.add(n.id)
    return out


def show(c):
    if isinstance(c, bool):
        return str(c)
    if c[0] == "not":
        return "not (%s)" % show(c[1])
    if c[0] in ("and", "or"):
        return "(" + (" %s " % c[0]).join(show(x) for x in c[1:]) + ")"
    if c[0] == "cmp":
        return "%s %s %s" % (c[1], {"<>": "!=", "<=": "<=", "=>": ">="}.get(c[3], c[3]), c[2])
    if c[0] == "enum":
        return "%s == %s" % (c[1], c[2])
    return c[1]


def run(ctx):
    ctx.rule("refused", "every case that a function of the package refused is still refused by it", 300)
    ctx.rule("choice", "a choice between named alternatives ends in a refusal of all other names", 20)
    with open(os.path.join(HERE, "refusals.json")) as f:
        tab = json.load(f)
    now = collect(ctx.prog)
    count = {}            # bare name -> refusals inside functions of that name
    for q, l in now.items():
        b = q.split(".")[-1]
        count[b] = count.get(b, 0) + sum(len(r) for _, _, r in l)
    then = {}
    for e in tab["refusals"]:
        b = e["function"].split(".")[-1]
        then[b] = then.get(b, 0) + len(e["cases"])
    for e in tab["refusals"]:
        q = e["function"]
        here = [x for x in now.get(q, []) if x[0].name == e["module"]] or now.get(q, [])
        if len(here) != 1:
            continue
        m, fn, cur = here[0]
        ctx.visit(fn)
        function(ctx, q, m, fn, cur, [(fromlist(c), x) for c, x in e["cases"]], count, then)
    choices(ctx, tab, now)


def function(ctx, q, m, fn, cur, old, count, then):
    conds = [c for c, _, _ in cur]
    free = list(range(len(cur)))
    rest = []
    for i, (f, x) in enumerate(old):
        hit = [j for j in free if conds[j] == f]
        if hit:
            free.remove(hit[0])
            ctx.ok("refused", "%s: %s" % (q, show(f)[:150]))
        else:
            rest.append((i, f, x))
    everything = either(conds) if conds else False
    missing = []
    for i, f, x in rest:
        if any(implies(f, c) == "yes" for c in conds) or implies(f, everything) == "yes":
            ctx.ok("refused", "%s: %s" % (q, show(f)[:150]))
        else:
            missing.append((i, f, x))
    if not missing:
        return
    # refusals that may have been reworded, or moved into a helper that is called from here
    names = callees(fn)
    moved = sum(max(0, count.get(b, 0) - then.get(b, 0)) for b in names if b != fn.name)
    for i, f, x in missing:
        key = "%s: %s" % (q, show(f)[:300])
        if numeric(f, everything) == "yes":
            ctx.ok("refused", key[:150])
            continue
        weaker = [j for j in free if implies(f, conds[j]) == "no" and set(variables(f)) <= set(variables(conds[j]))]
        weaker = weaker or [j for j in free if numeric(f, conds[j]) == "no" and numeric(f, everything) == "no"]
        if weaker and f is not True and moved == 0:
            ctx.violate("refused", key, loc(cur[weaker[0]][2]), "%s was refused (%s); now only %s is" % (show(f)[:300], x, show(conds[weaker[0]])[:300]))
        elif len(free) + moved >= len(missing):
            ctx.unresolved("refused", key, "reworded or moved")
        else:
            ctx.violate("refused", key, loc(fn), "%s was refused (%s) and no longer is" % (show(f)[:300], x))


# -- alternatives -----------------------------------------------------------------

def constants(fn):
    """Parameters compared with string constants."""
    a = fn.args
    ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    out = {}
    for n in flow.own_walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Name) and n.left.id in ps:
            r = n.comparators[0]
            if isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant) and isinstance(r.value, str):
                out.setdefault(n.left.id, set()).add(r.value)
            elif isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(r, (ast.List, ast.Tuple, ast.Set)) and r.elts and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in r.elts):
                out.setdefault(n.left.id, set()).update(x.value for x in r.elts)
        elif isinstance(n, ast.Match) and isinstance(n.subject, ast.Name) and n.subject.id in ps:
            for c in n.cases:
                for x in ast.walk(c.pattern):
                    if isinstance(x, ast.MatchValue) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, str):
                        out.setdefault(n.subject.id, set()).add(x.value.value)
    return out


def accepts_unknown(fn, p):
    """A normal exit reached after testing p while no test on p succeeded; None if there are too many paths."""
    cfg = flow.CFG(fn)

    def outcome(a):
        """Outcome of a test for a value of p that is none of the named ones; None if the test is about something else."""
        if isinstance(a, ast.Compare) and len(a.ops) == 1 and isinstance(a.left, ast.Name) and a.left.id == p:
            r = a.comparators[0]
            strs = isinstance(r, ast.Constant) and isinstance(r.value, str) or isinstance(r, (ast.List, ast.Tuple, ast.Set)) and r.elts and all(
                isinstance(x, ast.Constant) and isinstance(x.value, str) for x in r.elts)
            if strs or isinstance(r, ast.Name) and isinstance(a.ops[0], (ast.In, ast.NotIn)):
                return isinstance(a.ops[0], (ast.NotEq, ast.NotIn))
            if isinstance(r, ast.Constant) and r.value is None:
                return isinstance(a.ops[0], (ast.IsNot, ast.NotEq))
        if isinstance(a, ast.Name) and a.id == p:
            return True
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "isinstance" and isinstance(a.args[0], ast.Name) and a.args[0].id == p:
            k = a.args[1]
            return "str" in {text(x) for x in (k.elts if isinstance(k, ast.Tuple) else [k])}
        return None

    def transfer(node, label, state):
        a = node.ast
        if node.kind == "test" and a is not None:
            if isinstance(a, ast.pattern):
                if any(isinstance(x, ast.MatchValue) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, str) for x in ast.walk(a)):
                    return [] if label == "t" else [True]
                return [state]
            o = outcome(a)
            if o is not None and label in ("t", "f"):
                return [True] if (label == "t") == o else []
        elif node.kind == "stmt" and isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in a.targets):
            return [None]
        return [state]
    seen, pred = flow.simulate(cfg, False, transfer, limit=6000, follow_exc=False)
    if seen is None:
        return None
    return any(s is True for _, s in seen[cfg.exit.id]), any(s is True for n in cfg.nodes for _, s in seen[n.id])


def choices(ctx, tab, now):
    for e in tab["choices"]:
        here = [x for x in now.get(e["function"], []) if x[0].name == e["module"]] or now.get(e["function"], [])
        if len(here) != 1:
            continue
        m, fn, _ = here[0]
        p = e["parameter"]
        key = "%s(%s)" % (e["function"], p)
        if p not in constants(fn):
            ctx.unresolved("choice", key, "the choice is made elsewhere")
            continue
        r = accepts_unknown(fn, p)
        if r is None:
            ctx.unresolved("choice", key, "too many paths")
        elif r[0]:
            ctx.violate("choice", key, loc(fn), "a value of %s that names none of the alternatives %s is accepted" % (p, sorted(constants(fn)[p])))
        else:
            ctx.ok("choice", key)
