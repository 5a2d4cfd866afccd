"""Front end: parses the library, builds module namespaces, the class table and method resolution orders.

Nothing of the library is imported or run.  External modules are referred to by dotted name ("numpy.sum").
"""
import ast
import os
import hashlib
import warnings

REPO = os.environ.get("AIS_REPO", "/repo")
PKG = "ais_benchmarks"


class ModuleInfo:
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        with open(path, "rb") as f:
            raw = f.read()
        self.digest = hashlib.sha1(raw).hexdigest()
        self.source = raw.decode("utf-8")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.source, path)
        self.ns = {}            # name -> Binding
        self.star = []          # modules star-imported
        self.problems = []      # (lineno, message)
        self.main_nodes = set()

    def __repr__(self):
        return "<module %s>" % self.name

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


class ClassInfo:
    def __init__(self, name, mod, node, qual):
        self.name, self.mod, self.node, self.qual = name, mod, node, qual
        self.methods = {}       # name -> FuncInfo (last definition wins)
        self.props = {}         # name -> {"get": FuncInfo, "set": FuncInfo}
        self.attrs = {}         # class level assignments name -> ast expr
        self.base_exprs = node.bases
        self.bases = []         # ClassInfo or Ext dotted string
        self._mro = None

    def __repr__(self):
        return "<class %s>" % self.name

    def mro(self):
        if self._mro is None:
            out = [self]
            seqs = [list(b.mro()) for b in self.bases if isinstance(b, ClassInfo)]
            seqs.append([b for b in self.bases if isinstance(b, ClassInfo)])
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                for s in seqs:
                    if s and s[0] is c:
                        s.pop(0)
            self._mro = out
        return self._mro

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if isinstance(b, str)]

    def find(self, name, after=None):
        """-> (owner class, kind, thing) following the MRO, optionally after a class (super)"""
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for c in m:
            if name in c.props:
                return c, "prop", c.props[name]
            if name in c.methods:
                return c, "method", c.methods[name]
            if name in c.attrs:
                return c, "attr", c.attrs[name]
        return None

    def method(self, name):
        r = self.find(name)
        return r[2] if r and r[1] == "method" else None

    def is_sub(self, name):
        return any(c.name == name for c in self.mro())


class FuncInfo:
    def __init__(self, node, mod, cls, qual, kind="function"):
        self.node, self.mod, self.cls, self.qual, self.kind = node, mod, cls, qual, kind
        self.name = getattr(node, "name", "<lambda>")
        self.abstract = False

    def __repr__(self):
        return "<func %s>" % self.qual

    @property
    def where(self):
        return "%s:%d %s" % (self.mod.rel, self.node.lineno, self.qual)


class Binding:
    """kind: class|func|module|ext|var|from (unresolved lazily)"""
    def __init__(self, kind, val, node=None):
        self.kind, self.val, self.node = kind, val, node


def _is_main_guard(n):
    return (isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name)
            and n.test.left.id == "__name__")


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, PKG)
        self.mods = {}
        for d, dirs, files in os.walk(self.root):
            dirs[:] = sorted(x for x in dirs if not x.startswith(".") and x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join(rel)
                self.mods[name] = ModuleInfo(name, p, is_pkg)
        # namespace packages (directories without __init__)
        self.dirs = {".".join(os.path.relpath(d, self.repo).split(os.sep)) for d, _x, fs in os.walk(self.root)
                     if any(f.endswith(".py") for f in fs)}
        self.classes = {}
        for m in self.mods.values():
            self._scan(m)
        self._resolving = set()
        for m in self.mods.values():
            for c in [b.val for b in m.ns.values() if b.kind == "class" and b.val.mod is m]:
                for be in c.base_exprs:
                    r = self.resolve_expr(m, be)
                    if r is not None and r.kind == "class":
                        c.bases.append(r.val)
                    elif r is not None and r.kind == "ext":
                        c.bases.append(r.val)
                    else:
                        c.bases.append("?" + ast.unparse(be))

    # ---------------------------------------------------------------- scanning
    def _scan(self, m):
        self._scan_body(m, m.tree.body)

    def _scan_body(self, m, body):
        for n in body:
            if _is_main_guard(n):
                for x in ast.walk(n):
                    m.main_nodes.add(x)
                continue
            if isinstance(n, ast.ClassDef):
                c = ClassInfo(n.name, m, n, m.name + "." + n.name)
                self._scan_class(m, c)
                m.ns[n.name] = Binding("class", c, n)
                self.classes.setdefault(n.name, c)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.ns[n.name] = Binding("func", FuncInfo(n, m, None, n.name), n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.ns[a.asname] = self._mod_binding(a.name, n)
                    else:
                        top = a.name.split(".")[0]
                        m.ns[top] = self._mod_binding(top, n)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == "*":
                        m.star.append((base, n))
                    else:
                        m.ns[a.asname or a.name] = Binding("from", (base, a.name), n)
            elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tgts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tgts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            m.ns[x.id] = Binding("var", n.value, n)
            elif isinstance(n, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                for f in ("body", "orelse", "finalbody"):
                    self._scan_body(m, getattr(n, f, []) or [])
                for h in getattr(n, "handlers", []):
                    self._scan_body(m, h.body)

    def _mod_binding(self, name, node):
        if name in self.mods:
            return Binding("module", self.mods[name], node)
        if name in self.dirs:
            return Binding("nspkg", name, node)
        return Binding("ext", name, node)

    def _scan_class(self, m, c):
        for n in c.node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind, prop, setter, abstract = "method", False, None, False
                for d in n.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "staticmethod":
                        kind = "static"
                    elif isinstance(d, ast.Name) and d.id == "classmethod":
                        kind = "class"
                    elif isinstance(d, ast.Name) and d.id in ("property", "cached_property"):
                        prop = True
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        setter = ast.unparse(d.value)
                    elif "abstractmethod" in ast.unparse(d):
                        abstract = True
                f = FuncInfo(n, m, c, c.name + "." + n.name, kind)
                f.abstract = abstract
                if prop:
                    c.props.setdefault(n.name, {})["get"] = f
                elif setter:
                    c.props.setdefault(setter, {})["set"] = f
                else:
                    c.methods[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                c.attrs[n.target.id] = n.value

    # ---------------------------------------------------------------- resolution
    def lookup(self, m, name):
        """name in a module's global namespace -> resolved Binding or None"""
        key = (m.name, name)
        if key in self._resolving if hasattr(self, "_resolving") else False:
            return None
        b = m.ns.get(name)
        if b is not None:
            return self._resolve_binding(m, b, key)
        sub = m.name + "." + name
        if m.is_pkg and sub in self.mods:
            pass
        for base, node in reversed(m.star):
            r = self._from(base, name, key)
            if r is not None:
                return r
        if m.is_pkg and sub in self.mods:
            return Binding("module", self.mods[sub])
        return None

    def _resolve_binding(self, m, b, key):
        if b.kind == "from":
            base, nm = b.val
            return self._from(base, nm, key)
        return b

    def _from(self, base, nm, key):
        if not hasattr(self, "_resolving"):
            self._resolving = set()
        if key + (base,) in self._resolving:
            return None
        self._resolving.add(key + (base,))
        try:
            if base in self.mods:
                r = self.lookup(self.mods[base], nm)
                if r is not None:
                    return r
                if base + "." + nm in self.mods:
                    return Binding("module", self.mods[base + "." + nm])
                return None
            if base in self.dirs:
                if base + "." + nm in self.mods:
                    return Binding("module", self.mods[base + "." + nm])
                return None
            top = base.split(".")[0]
            if top == PKG:
                return None
            return Binding("ext", base + "." + nm)
        finally:
            self._resolving.discard(key + (base,))

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if b is None:
                return None
            if b.kind == "module":
                return self.lookup(b.val, e.attr)
            if b.kind == "nspkg":
                nm = b.val + "." + e.attr
                return self._mod_binding(nm, e) if nm in self.mods or nm in self.dirs else None
            if b.kind == "ext":
                return Binding("ext", b.val + "." + e.attr)
        return None

    def cls(self, name):
        return self.classes.get(name)

    def subclasses(self, name):
        return [c for c in self.classes.values() if c.name != name and c.is_sub(name)]

    def is_abstract(self, c):
        """has an abstract method not overridden (only effective with an ABCMeta metaclass)"""
        out = []
        for k in c.mro():
            for n, f in k.methods.items():
                if f.abstract and c.method(n) is f:
                    out.append(n)
        return out

    def functions(self):
        for m in self.mods.values():
            for b in m.ns.values():
                if b.kind == "func" and b.val.mod is m:
                    yield b.val
                elif b.kind == "class" and b.val.mod is m:
                    for f in b.val.methods.values():
                        yield f
                    for p in b.val.props.values():
                        for f in p.values():
                            yield f
