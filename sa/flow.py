"""Control flow graphs with exception edges and a path-sensitive typestate solver."""
import ast
import re

NORMAL, EXC = "n", "e"


class Node:
    __slots__ = ("id", "kind", "ast", "succ")

    def __init__(self, i, kind, a):
        self.id = i
        self.kind = kind      # entry exit raise stmt test iter enter leave handler join
        self.ast = a
        self.succ = []        # (node, label)  label: n t f e

    def __repr__(self):
        return "<%d %s %s>" % (self.id, self.kind, ast.unparse(self.ast)[:40] if isinstance(self.ast, ast.AST) else "")


SAFE_CALLS = {"len", "isinstance", "range", "list", "tuple", "set", "dict", "str", "int", "float", "bool", "enumerate", "zip", "hasattr", "id",
              "min", "max", "sum", "abs", "type", "print", "getattr", "sorted", "reversed", "super", "repr", "callable", "all", "any"}


def own_walk(node):
    """Walk a statement or expression without descending into nested function bodies."""
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.append(c)


def may_raise(node):
    if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
        return False
    for n in own_walk(node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in SAFE_CALLS:
                continue
            return True
        if isinstance(n, (ast.Raise, ast.Assert, ast.Await, ast.Yield, ast.YieldFrom)):
            return True
    return False


class CFG:
    def __init__(self, fn):
        self.fn = fn
        self.nodes = []
        self.entry = self.new("entry", None)
        self.exit = self.new("exit", None)
        self.raised = self.new("raise", None)
        self.frames = []
        self._exc = {}
        self.lens = same_length(fn)
        body = fn.body if isinstance(fn.body, list) else [ast.copy_location(ast.Return(value=fn.body), fn.body)]
        out = self.block(body, [(self.entry, NORMAL)])
        self.link(out, self.exit)

    def new(self, kind, a):
        n = Node(len(self.nodes), kind, a)
        self.nodes.append(n)
        return n

    def link(self, frontier, node):
        for f, lab in frontier:
            if not any(x is node and l == lab for x, l in f.succ):
                f.succ.append((node, lab))

    # exception target for the current frame stack
    def exc_target(self, frames=None):
        frames = self.frames if frames is None else frames
        if not frames:
            return self.raised
        key = tuple(id(f) for f in frames)
        if key in self._exc:
            return self._exc[key][0]
        top, rest = frames[-1], frames[:-1]
        n = self.new("join", None)
        self._exc[key] = (n, frames)
        if top[0] == "try":
            st = top[1]
            catch_all = False
            for h in st.handlers:
                hn = self.new("handler", h)
                self.link([(n, NORMAL)], hn)
                top[2].append(hn)
                if h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException")):
                    catch_all = True
            if not catch_all:
                self.link([(n, EXC)], self.exc_target(rest))
        elif top[0] == "finally":
            save = self.frames
            self.frames = list(rest)
            out = self.block(top[1].finalbody, [(n, NORMAL)])
            self.frames = save
            t = self.exc_target(rest)
            for f, lab in out:
                f.succ.append((t, lab))
        elif top[0] == "with":
            save = self.frames
            self.frames = list(rest)
            l = self.new("leave", top[1])
            self.link([(n, NORMAL)], l)
            self.frames = save
            self.link([(l, EXC)], self.exc_target(rest))
        return n

    def unwind(self, frontier, upto):
        """Run the finally blocks and context exits of the frames above index upto."""
        save = self.frames
        for i in range(len(save) - 1, upto - 1, -1):
            fr = save[i]
            self.frames = list(save[:i])
            if fr[0] == "finally":
                frontier = self.block(fr[1].finalbody, frontier)
            elif fr[0] == "with":
                l = self.new("leave", fr[1])
                self.link(frontier, l)
                frontier = [(l, NORMAL)]
        self.frames = save
        return frontier

    def simple(self, st, frontier, kind="stmt"):
        n = self.new(kind, st)
        self.link(frontier, n)
        if may_raise(st if kind != "iter" else st.iter):
            self.link([(n, EXC)], self.exc_target())
        return n

    def block(self, stmts, frontier):
        for st in stmts:
            if not frontier:
                break
            frontier = self.stmt(st, frontier)
        return frontier

    def loops(self):
        return [i for i, f in enumerate(self.frames) if f[0] == "loop"]

    def cond(self, e, frontier):
        """Short-circuit conditions become separate test nodes; returns (true frontier, false frontier)."""
        if isinstance(e, ast.BoolOp):
            t_all, f_all = [], []
            cur = frontier
            for v in e.values:
                t, f = self.cond(v, cur)
                if isinstance(e.op, ast.And):
                    f_all += f
                    cur = t
                else:
                    t_all += t
                    cur = f
            return (cur, f_all) if isinstance(e.op, ast.And) else (t_all, cur)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, frontier)
            return f, t
        if self.lens:
            c = len_cmp(e)
            if c is not None and isinstance(e.left.args[0], ast.Name) and e.left.args[0].id in self.lens:
                new = ast.parse(ast.unparse(e), mode="eval").body
                new.left.args[0].id = self.lens[e.left.args[0].id]
                e = ast.fix_missing_locations(ast.copy_location(new, e))
        n = self.new("test", e)
        self.link(frontier, n)
        if may_raise(e):
            self.link([(n, EXC)], self.exc_target())
        if isinstance(e, ast.Constant):
            return ([(n, "t")], []) if e.value else ([], [(n, "f")])
        return [(n, "t")], [(n, "f")]

    def stmt(self, st, frontier):
        if isinstance(st, ast.If):
            t, f = self.cond(st.test, frontier)
            return self.block(st.body, t) + self.block(st.orelse, f)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            n = self.simple(st, frontier, "iter")
            fr = ("loop", st, n, [])
            self.frames.append(fr)
            out = self.block(st.body, [(n, "t")])
            self.frames.pop()
            self.link(out, n)
            return self.block(st.orelse, [(n, "f")]) + fr[3]
        if isinstance(st, ast.While):
            head = self.new("join", None)
            self.link(frontier, head)
            t, f = self.cond(st.test, [(head, NORMAL)])
            fr = ("loop", st, head, [])
            self.frames.append(fr)
            out = self.block(st.body, t)
            self.frames.pop()
            self.link(out, head)
            return self.block(st.orelse, f) + fr[3]
        if isinstance(st, (ast.With, ast.AsyncWith)):
            depth = 0
            for it in st.items:
                n = self.new("enter", it)
                self.link(frontier, n)
                self.link([(n, EXC)], self.exc_target())
                frontier = [(n, NORMAL)]
                self.frames.append(("with", it))
                depth += 1
            out = self.block(st.body, frontier)
            for _ in range(depth):
                fr = self.frames.pop()
                if out:
                    l = self.new("leave", fr[1])
                    self.link(out, l)
                    out = [(l, NORMAL)]
            return out
        if isinstance(st, ast.Try):
            if st.finalbody:
                ffr = ("finally", st)
                self.frames.append(ffr)
            tfr = ("try", st, [])
            if st.handlers:
                self.frames.append(tfr)
            out = self.block(st.body, frontier)
            if st.handlers:
                self.frames.pop()
            out = self.block(st.orelse, out)
            if st.handlers:
                for h in tfr[2]:
                    out = out + self.block(h.ast.body, [(h, NORMAL)])
            if st.finalbody:
                self.frames.pop()
                out = self.block(st.finalbody, out) if out else out
            return out
        if isinstance(st, ast.Return):
            n = self.simple(st, frontier)
            self.link(self.unwind([(n, NORMAL)], 0), self.exit)
            return []
        if isinstance(st, ast.Raise):
            n = self.new("stmt", st)
            self.link(frontier, n)
            self.link([(n, EXC)], self.exc_target())
            return []
        if isinstance(st, ast.Break):
            i = self.loops()[-1]
            n = self.new("stmt", st)
            self.link(frontier, n)
            self.frames[i][3].extend(self.unwind([(n, NORMAL)], i + 1))
            return []
        if isinstance(st, ast.Continue):
            i = self.loops()[-1]
            n = self.new("stmt", st)
            self.link(frontier, n)
            self.link(self.unwind([(n, NORMAL)], i + 1), self.frames[i][2])
            return []
        if isinstance(st, ast.Assert):
            n = self.new("stmt", st)
            self.link(frontier, n)
            self.link([(n, EXC)], self.exc_target())
            return [(n, NORMAL)]
        if isinstance(st, ast.Match):
            n = self.simple(ast.copy_location(ast.Expr(value=st.subject), st), frontier)
            out = []
            total = False
            for c in st.cases:
                t = self.new("test", c.pattern)
                self.link([(n, NORMAL)], t)
                out += self.block(c.body, [(t, "t")])
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    total = True
            return out + ([] if total else [(n, NORMAL)])
        n = self.simple(st, frontier)
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            f = st.value.func
            if isinstance(f, ast.Attribute) and f.attr == "exit" and isinstance(f.value, ast.Name) and f.value.id == "sys":
                return []
        return [(n, NORMAL)]


CHANGERS = {"append", "extend", "insert", "pop", "remove", "clear", "add", "update", "discard", "popitem", "setdefault"}


def stored_names(node, changed=False):
    out = set()
    if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        return {node.name}
    if isinstance(node, (ast.For, ast.AsyncFor)):
        node = node.target
    for n in own_walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.NamedExpr):
            out.add(n.target.id)
        elif changed and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGERS and isinstance(n.func.value, ast.Name):
            out.add(n.func.value.id)
    if isinstance(node, ast.withitem) and node.optional_vars is not None:
        out |= stored_names(node.optional_vars)
    return out


NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def canon(test):
    """(text, polarity) of a condition; x != y and not x == y share a text."""
    pol = True
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        test, pol = test.operand, not pol
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and type(test.ops[0]) in (ast.NotEq, ast.IsNot, ast.NotIn):
        test = ast.Compare(left=test.left, ops=[NEG[type(test.ops[0])]()], comparators=test.comparators)
        pol = not pol
    return ast.unparse(test), pol


_NAMES = {}


def cond_names(text):
    if text not in _NAMES:
        _NAMES[text] = set(re.findall(r"[A-Za-z_]\w*", text))
    return _NAMES[text]


class Facts:
    """Known outcomes of repeated conditions and of boolean/None constants held by locals."""

    @staticmethod
    def after(node, label, facts):
        """facts: frozenset of (text, bool); returns new facts or None if the edge contradicts them."""
        d = dict(facts)
        a = node.ast
        if node.kind == "test" and label in ("t", "f"):
            text, pol = canon(a)
            val = pol == (label == "t")
            if text in d:
                return facts if d[text] == val else None
            c = Facts.implied(a, d)
            if c is None:
                c = bounds(a, d)
            if c is not None and c != (label == "t"):
                return None
            if not any(isinstance(n, ast.Call) and not pure_call(n) for n in ast.walk(a)):
                d[text] = val
            return frozenset(d.items())
        if a is None:
            return facts
        st = stored_names(a, True) if node.kind in ("stmt", "iter", "enter") else set()
        if not st:
            return facts
        d = {k: v for k, v in d.items() if not (cond_names(k) & st)}
        if node.kind == "stmt" and isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name):
            x = a.targets[0].id
            v = a.value
            if isinstance(v, ast.Constant) and (v.value is None or isinstance(v.value, bool)):
                if v.value is None:
                    d["%s is None" % x] = True
                    d[x] = False
                else:
                    d[x] = v.value
                    d["%s is None" % x] = False
            elif isinstance(v, (ast.List, ast.Tuple)) and not v.elts:
                d[x] = False
                d["%s is None" % x] = False
            elif isinstance(v, (ast.Call, ast.ListComp, ast.List, ast.Tuple, ast.Dict)) and not isinstance(v, ast.Call):
                d["%s is None" % x] = False
                if isinstance(v, (ast.List, ast.Tuple)):
                    d[x] = True
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id[:1].isupper():
                d["%s is None" % x] = False
        return frozenset(d.items())

    @staticmethod
    def implied(a, d):
        if isinstance(a, ast.Name) and a.id in d:
            return d[a.id]
        if isinstance(a, ast.Compare) and len(a.ops) == 1 and isinstance(a.comparators[0], ast.Constant) and isinstance(a.comparators[0].value, bool) \
                and isinstance(a.left, ast.Name) and a.left.id in d and isinstance(a.ops[0], (ast.Eq, ast.Is)):
            return d[a.left.id] == a.comparators[0].value
        return None


def len_cmp(text_or_node):
    """(subject, op, constant) of a comparison of a length with a constant."""
    a = text_or_node
    if isinstance(a, str):
        try:
            a = ast.parse(a, mode="eval").body
        except SyntaxError:
            return None
    if not (isinstance(a, ast.Compare) and len(a.ops) == 1 and isinstance(a.comparators[0], ast.Constant)
            and type(a.comparators[0].value) is int):
        return None
    l = a.left
    if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len":
        return ast.unparse(l), type(a.ops[0]), a.comparators[0].value
    return None


def holds(op, x, c):
    return {ast.Eq: x == c, ast.NotEq: x != c, ast.Lt: x < c, ast.LtE: x <= c, ast.Gt: x > c, ast.GtE: x >= c}.get(op)


def bounds(a, d):
    """Outcome of a length comparison implied by earlier comparisons of the same length."""
    q = len_cmp(a)
    if q is None:
        return None
    cand = range(0, 40)
    for k, v in d.items():
        if not k.startswith("len("):
            continue
        f = len_cmp(k)
        if f is None or f[0] != q[0]:
            continue
        cand = [x for x in cand if holds(f[1], x, f[2]) == v]
    res = {holds(q[1], x, q[2]) for x in cand}
    return res.pop() if len(res) == 1 else None


def same_length(fn):
    """Rename locals that are built element by element from another local, so that their lengths compare equal."""
    count, src = {}, {}
    for n in own_walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            count[n.id] = count.get(n.id, 0) + 1
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].ifs and isinstance(v.generators[0].iter, ast.Name):
                src[n.targets[0].id] = v.generators[0].iter.id
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "tuple") and len(v.args) == 1 and isinstance(v.args[0], ast.Name):
                src[n.targets[0].id] = v.args[0].id
    return {k: v for k, v in src.items() if count.get(k) == 1 and count.get(v, 0) <= 1 and k != v}


def pure_call(n):
    return isinstance(n.func, ast.Name) and n.func.id in ("len", "isinstance", "hasattr", "check_for_tracing_mode", "callable", "type", "int", "bool")


def simulate(cfg, init, transfer, limit=20000, follow_exc=True):
    """Path-sensitive typestate propagation.

    transfer(node, label, state) -> iterable of states.  Returns {node id: set of (facts, state)} seen on
    entry of each node, or None if the bound is exceeded."""
    seen = {n.id: set() for n in cfg.nodes}
    start = (frozenset(), init)
    seen[cfg.entry.id].add(start)
    work = [(cfg.entry, start)]
    steps = 0
    pred = {(cfg.entry.id, start): None}
    while work:
        node, (facts, state) = work.pop()
        steps += 1
        if steps > limit:
            return None, None
        for succ, lab in node.succ:
            if lab == EXC and not follow_exc:
                continue
            nf = Facts.after(node, lab, facts)
            if nf is None:
                continue
            for ns in transfer(node, lab, state):
                item = (nf, ns)
                if item not in seen[succ.id]:
                    seen[succ.id].add(item)
                    pred[(succ.id, item)] = (node.id, (facts, state))
                    work.append((succ, item))
    return seen, pred


def trace(cfg, pred, node_id, item):
    """Line numbers of one path leading to the given item."""
    out = []
    cur = (node_id, item)
    while cur is not None:
        n = cfg.nodes[cur[0]]
        ln = getattr(n.ast, "lineno", None)
        if ln is not None and (not out or out[-1] != ln):
            out.append(ln)
        cur = pred.get(cur)
    return out[::-1]


def solve(cfg, init, transfer, join, bottom):
    """Plain forward dataflow: transfer(node, label, value) -> value."""
    val = {n.id: bottom for n in cfg.nodes}
    val[cfg.entry.id] = init
    work = [cfg.entry]
    while work:
        n = work.pop()
        for s, lab in n.succ:
            v = join(val[s.id], transfer(n, lab, val[n.id]))
            if v != val[s.id]:
                val[s.id] = v
                work.append(s)
    return val
