"""Source loader: parses the package and resolves names across modules."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


def src_root():
    return os.path.join(REPO, "src")


class Module:
    def __init__(self, name, path, is_pkg):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, filename=path)
        self.rel = os.path.relpath(path, REPO)
        self.table = {}
        self.stars = []
        self._collect(self.tree.body, False)
        for node in ast.walk(self.tree):
            node._mod = self

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]

    def abs_import(self, module, level):
        if level == 0:
            return module or ""
        base = self.package().split(".")
        if level > 1:
            base = base[: -(level - 1)]
        return ".".join(base + ([module] if module else []))

    def _bind(self, name, ent):
        self.table[name] = ent

    def _collect(self, body, guarded):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._bind(st.name, ("def", st))
            elif isinstance(st, ast.ClassDef):
                self._bind(st.name, ("class", st))
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        self._bind(al.asname, ("import", al.name))
                    else:
                        self._bind(al.name.split(".")[0], ("import", al.name.split(".")[0]))
            elif isinstance(st, ast.ImportFrom):
                src = self.abs_import(st.module, st.level)
                for al in st.names:
                    if al.name == "*":
                        self.stars.append(src)
                    else:
                        self._bind(al.asname or al.name, ("from", src, al.name))
            elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self._bind(n.id, ("assign", st))
            elif isinstance(st, ast.If):
                self._collect(st.body, True)
                self._collect(st.orelse, True)
            elif isinstance(st, ast.Try):
                self._collect(st.body, True)
                for h in st.handlers:
                    # a fallback defined in the package is preferred over an
                    # optional third-party import
                    for n in h.body:
                        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                            self._bind(n.name, ("def" if isinstance(n, ast.FunctionDef) else "class", n))
                self._collect(st.orelse, True)
                self._collect(st.finalbody, True)
            elif isinstance(st, (ast.For, ast.While, ast.With)):
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self._bind(n.id, ("assign", st))


class Program:
    def __init__(self, package="qrisp"):
        self.modules = {}
        self._res_cache = {}
        root = src_root()
        self._load(root, os.path.join(root, package))

    def add_stubs(self, *packages):
        """Load models of third-party packages, written as Python source."""
        root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs")
        for p in packages:
            if os.path.isdir(os.path.join(root, p)):
                self._load(root, os.path.join(root, p))
            else:
                self.modules[p] = Module(p, os.path.join(root, p + ".py"), False)
        self._res_cache.clear()

    def _load(self, root, base):
        for dirpath, dirnames, filenames in os.walk(base):
            dirnames[:] = sorted(d for d in dirnames if d != "__pycache__")
            for fn in sorted(filenames):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, root)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join(rel)
                self.modules[name] = Module(name, path, is_pkg)

    # ------------------------------------------------------------------
    def resolve(self, modname, name, _seen=None):
        """Resolve ``name`` in module ``modname`` to an entity.

        Entities: ("def", module, node) ("class", module, node)
        ("assign", module, stmt) ("module", modname) ("ext", dotted) or None.
        """
        key = (modname, name)
        if key in self._res_cache:
            return self._res_cache[key]
        if _seen is None:
            _seen = set()
        if key in _seen:
            return None
        _seen.add(key)
        res = self._resolve(modname, name, _seen)
        if res is not None:
            self._res_cache[key] = res
        return res

    def _resolve(self, modname, name, seen):
        mod = self.modules.get(modname)
        if mod is None:
            return ("ext", modname + "." + name)
        ent = mod.table.get(name)
        if ent is not None:
            kind = ent[0]
            if kind == "def":
                return ("def", mod, ent[1])
            if kind == "class":
                return ("class", mod, ent[1])
            if kind == "assign":
                return ("assign", mod, ent[1])
            if kind == "import":
                if ent[1] in self.modules:
                    return ("module", ent[1])
                return ("ext", ent[1])
            if kind == "from":
                return self.resolve_from(ent[1], ent[2], seen)
        for star in reversed(mod.stars):
            if star in self.modules:
                r = self.resolve(star, name, seen)
                if r is not None:
                    return r
        sub = modname + "." + name
        if mod.is_pkg and sub in self.modules:
            return ("module", sub)
        return None

    def resolve_from(self, src, name, seen=None):
        if src in self.modules:
            r = self.resolve(src, name, seen)
            if r is not None:
                return r
            sub = src + "." + name
            if sub in self.modules:
                return ("module", sub)
            return None
        if src.split(".")[0] == "qrisp" and src not in self.modules:
            return None
        return ("ext", src + "." + name)

    # ------------------------------------------------------------------
    def functions(self):
        """Yield (module, qualname, node, owner class node or None) for every def."""
        for mod in self.modules.values():
            yield from _walk_defs(mod, mod.tree.body, "", None)

    def find_def(self, modname, qual):
        mod = self.modules.get(modname)
        if mod is None:
            return None
        for m, q, node, cls in _walk_defs(mod, mod.tree.body, "", None):
            if q == qual:
                return node
        return None


def _walk_defs(mod, body, prefix, cls):
    for st in body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = prefix + st.name
            yield mod, q, st, cls
            yield from _walk_defs(mod, st.body, q + ".", None)
        elif isinstance(st, ast.ClassDef):
            yield from _walk_defs(mod, st.body, prefix + st.name + ".", st)
        elif isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            for fld in ("body", "orelse", "finalbody"):
                yield from _walk_defs(mod, getattr(st, fld, []) or [], prefix, cls)
            for h in getattr(st, "handlers", []) or []:
                yield from _walk_defs(mod, h.body, prefix, cls)


_PROG = None


def program():
    global _PROG
    if _PROG is None:
        _PROG = Program()
    return _PROG


def loc(node):
    mod = getattr(node, "_mod", None)
    return "%s:%s" % (mod.rel if mod else "?", getattr(node, "lineno", "?"))
