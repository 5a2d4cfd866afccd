"""Name, attribute, call and interface resolution over the whole library (C50, C51), shared state (C52)."""
import ast
import builtins
import symtable
import warnings
from ..src import Program, ClassInfo, PKG
from ..report import Anchor
from .. import extinfo

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__class__", "__package__", "WindowsError"}
OKBASES = {"abc.ABC", "ABC", "builtins.object", "object", "?object", "?Exception", "Exception"}


def funcs_in(mod):
    """(function node, owner class or None, qualname) of a module, __main__ blocks excluded"""
    def walk(body, cls, pre):
        for n in body:
            if n in mod.main_nodes:
                continue
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield n, cls, pre + n.name
            elif isinstance(n, ast.ClassDef):
                yield from walk(n.body, n.name, pre + n.name + ".")
            elif isinstance(n, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                for f in ("body", "orelse", "finalbody"):
                    yield from walk(getattr(n, f, None) or [], cls, pre)
                for h in getattr(n, "handlers", []):
                    yield from walk(h.body, cls, pre)
    yield from walk(mod.tree.body, None, "")


def main_lines(mod):
    out = set()
    for n in mod.main_nodes:
        if hasattr(n, "lineno"):
            out.add(n.lineno)
    return out


def accepts(fn, npos, kws, star, bound):
    """does the signature of a function node accept npos positional and kws keyword arguments? -> None or a complaint"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound and pos:
        pos = pos[1:]
    elif bound and not a.vararg:
        return "takes no self"
    ndef = len(a.defaults)
    if npos > len(pos) and not a.vararg:
        return "takes %d positional arguments but %d are given" % (len(pos), npos)
    names = set(pos) | {x.arg for x in a.kwonlyargs}
    for k in kws:
        if k not in names and not a.kwarg:
            return "has no parameter '%s'" % k
        if k in pos[:npos]:
            return "gets '%s' twice" % k
    if not star:
        req = pos[:len(pos) - ndef] if ndef else pos
        for n in req[npos:]:
            if n not in kws:
                return "misses the argument '%s'" % n
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kws:
                return "misses the argument '%s'" % x.arg
    return None


def call_shape(c):
    star = any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords)
    return len([a for a in c.args if not isinstance(a, ast.Starred)]), [k.arg for k in c.keywords if k.arg], star


def assigned_attrs(prog, cls):
    """attributes given to self anywhere in the class hierarchy of cls"""
    out = set()
    for k in cls.mro():
        out |= set(k.methods) | set(k.props) | set(k.attrs)
        for n in ast.walk(k.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store,)) and isinstance(n.value, ast.Name) \
                    and n.value.id in ("self", "cls"):
                out.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) >= 2:
                if isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
                else:
                    out.add("*")
            if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                out.add("*")
        if "__getattr__" in k.methods or "__getattribute__" in k.methods:
            out.add("*")
    return out


def outside_attrs(prog):
    """attribute names stored on objects from anywhere: x.name = ..."""
    out = set()
    for m in prog.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
    return out


def super_calls(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) \
                and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            yield n


def visible_methods(cls):
    """FuncInfos that run on instances of cls: what lookup finds, plus what those reach through super() or Base.m(self)"""
    todo, seen = [], []
    names = {n for k in cls.mro() for n in list(k.methods) + list(k.props)}
    for n in names:
        f = cls.find(n)
        if f is None:
            continue
        if f[1] == "method":
            todo.append(f[2])
        elif f[1] == "prop":
            todo.extend(f[2].values())
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.append(f)
        for c in super_calls(f.node):
            r = cls.find(c.func.attr, after=f.cls)
            if r and r[1] == "method":
                todo.append(r[2])
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                for k in cls.mro():
                    if k.name == n.func.value.id and n.func.attr in k.methods:
                        todo.append(k.methods[n.func.attr])
    return seen


def hasattr_guards(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) >= 2 \
                and isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
        if isinstance(n, ast.ExceptHandler):
            t = ast.unparse(n.type) if n.type else "AttributeError"
            if "AttributeError" in t or t in ("Exception", "BaseException"):
                out.add("*")
    return out


def self_name(fi):
    if fi.kind == "static" or not fi.node.args.args:
        return None
    return fi.node.args.args[0].arg


def concrete(prog, c):
    return not prog.is_abstract(c)


# ------------------------------------------------------------------ unbound locals
class Unbound(ast.NodeVisitor):
    """local names read at a point no assignment can reach"""

    def __init__(self, fn, locals_, report):
        self.may = set()
        self.locals = locals_
        self.report = report
        for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]:
            self.may.add(a.arg)
        for s in fn.body:
            self.visit(s)

    def stores(self, n):
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name.split(".")[0]) for a in x.names}
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
        return out

    def visit_FunctionDef(self, n):
        for d in n.args.defaults:
            self.visit(d)
        self.may.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ClassDef(self, n):
        self.may.add(n.name)

    def visit_comp(self, n):
        self.visit(n.generators[0].iter)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_comp

    def visit_For(self, n):
        self.visit(n.iter)
        self.may |= self.stores(n)
        for s in n.body + n.orelse:
            self.visit(s)

    def visit_While(self, n):
        # the first evaluation of the test precedes the body
        self.visit(n.test)
        self.may |= self.stores(n)
        for s in n.body + n.orelse:
            self.visit(s)

    def visit_Try(self, n):
        self.may |= self.stores(n)
        for s in n.body + n.orelse + n.finalbody:
            self.visit(s)
        for h in n.handlers:
            for s in h.body:
                self.visit(s)

    def visit_If(self, n):
        self.visit(n.test)
        m0 = set(self.may)
        for s in n.body:
            self.visit(s)
        m1 = self.may
        self.may = set(m0)
        for s in n.orelse:
            self.visit(s)
        self.may |= m1

    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)
            self.visit(n.target)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            if n.target.id in self.locals and n.target.id not in self.may:
                self.report(n, n.target.id)
        self.visit(n.value)
        self.visit(n.target)

    def visit_With(self, n):
        for i in n.items:
            self.visit(i.context_expr)
            if i.optional_vars:
                self.visit(i.optional_vars)
        for s in n.body:
            self.visit(s)

    def visit_Import(self, n):
        self.may |= {(a.asname or a.name.split(".")[0]) for a in n.names}

    visit_ImportFrom = visit_Import

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.may.add(n.id)
        elif isinstance(n.ctx, ast.Load):
            if n.id in self.locals and n.id not in self.may:
                self.report(n, n.id)


class Sometimes:
    """local names assigned on one branch only and then read whatever branch was taken

    Loops over collections count as entered, `while` loops only if their test depends on a local variable; a read that has
    a condition of its own, an if/elif chain that compares one expression with several values, and complementary
    conditions are left alone."""

    def __init__(self, fn, locals_, report):
        self.fn, self.locals, self.report = fn, locals_, report
        self.params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]}
        self.stored = {}     # name -> [guards]
        self.guards = []
        self.cands = []
        self.ever = set(self.params)
        self.brk = []
        self.block(fn.body, set(self.params))
        for nm, n, gs in self.cands:
            sites = self.stored.get(nm, [])
            if not sites or any(not all(g in s for g in gs) for s in sites):
                continue
            if self.exhaustive(sites, gs):
                continue
            report(n, nm)

    def exhaustive(self, sites, gs):
        tests = []
        for s in sites:
            own = [g for g in s if g not in gs]
            if not own:
                return True
            tests.append(own)
        subj = set()
        for own in tests:
            for kind, t in own:
                if kind == "loop":
                    continue
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is, ast.In)):
                    subj.add(ast.unparse(t.left))
                elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("isinstance", "hasattr"):
                    subj.add(ast.unparse(t.args[0]))
                else:
                    subj.add(id(t))
        if len(sites) >= 2 and len(subj) == 1 and not isinstance(next(iter(subj)), int):
            return True
        # several independent tests: they may be complementary
        return len(sites) >= 2 and len({id(t) for own in tests for k, t in own if k != "loop"}) >= 2

    def use(self, n, must):
        """reads in an expression, then the names it stores"""
        if n is None:
            return
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            self.use(n.generators[0].iter, must)
            return
        if isinstance(n, ast.IfExp):
            self.use(n.test, must)
            self.guards.append(("if", n.test))
            self.use(n.body, must)
            self.use(n.orelse, must)
            self.guards.pop()
            return
        if isinstance(n, ast.BoolOp):
            self.use(n.values[0], must)
            self.guards.append(("if", n.values[0]))
            for v in n.values[1:]:
                self.use(v, must)
            self.guards.pop()
            return
        if isinstance(n, ast.NamedExpr):
            self.use(n.value, must)
            self.store(n.target, must)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                if n.id in self.locals and n.id not in must and n.id in self.ever:
                    self.cands.append((n.id, n, list(self.guards)))
            else:
                self.store(n, must)
            return
        for c in ast.iter_child_nodes(n):
            self.use(c, must)

    def store(self, t, must):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                must.add(x.id)
                self.ever.add(x.id)
                self.stored.setdefault(x.id, []).append(list(self.guards))
            elif isinstance(x, (ast.Subscript, ast.Attribute)) and x is t:
                self.use(x.value, must)
                if isinstance(x, ast.Subscript):
                    self.use(x.slice, must)

    def block(self, body, must):
        """-> names surely assigned at the end, or None when the end is never reached"""
        for s in body:
            must = self.stmt(s, must)
            if must is None:
                return None
        return must

    def stmt(self, s, must):
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.use(c, must)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if isinstance(s, ast.Break) and self.brk:
                self.brk[-1].append(set(must))
            return None
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            must.add(s.name)
            self.ever.add(s.name)
            self.stored.setdefault(s.name, []).append(list(self.guards))
            return must
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                nm = a.asname or a.name.split(".")[0]
                must.add(nm)
                self.ever.add(nm)
                self.stored.setdefault(nm, []).append(list(self.guards))
            return must
        if isinstance(s, ast.Assign):
            self.use(s.value, must)
            for t in s.targets:
                self.store(t, must)
            return must
        if isinstance(s, ast.AugAssign):
            self.use(s.value, must)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.locals and s.target.id not in must and s.target.id in self.ever:
                    self.cands.append((s.target.id, s, list(self.guards)))
            self.store(s.target, must)
            return must
        if isinstance(s, ast.If):
            self.use(s.test, must)
            if isinstance(s.test, ast.Constant):
                return self.block(s.body if s.test.value else s.orelse, must)
            self.guards.append(("if", s.test))
            a = self.block(s.body, set(must))
            b = self.block(s.orelse, set(must))
            self.guards.pop()
            if a is None:
                return b
            if b is None:
                return a
            return a & b
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(s.iter, must)
            self.store(s.target, must)
            self.brk.append([])
            a = self.block(s.body, set(must))
            br = self.brk.pop()
            # counts as entered; without a run to the end of the body nothing is known: take it as assigning everything
            stored = {x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            out = (set(a) if a is not None else set(must) | stored)
            if br or any(isinstance(x, ast.Continue) for y in s.body for x in ast.walk(y)):
                out |= stored
            r = self.block(s.orelse, out)
            return out if r is None else r
        if isinstance(s, ast.While):
            self.use(s.test, must)
            names = {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)}
            const = isinstance(s.test, ast.Constant)
            own = names & {k for k in self.stored}
            skip = not const and not own and bool(names)
            if skip:
                self.guards.append(("while", s.test))
            self.brk.append([])
            a = self.block(s.body, set(must))
            br = self.brk.pop()
            if skip:
                self.guards.pop()
                return must
            stored = {x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if const and not br:
                return None
            return must | stored
        if isinstance(s, ast.Try):
            start = set(must)
            a = self.block(s.body, set(must))
            if a is not None:
                a = self.block(s.orelse, a)
            self.guards.append(("if", s))
            outs = [self.block(h.body, set(start) | ({h.name} if h.name else set())) for h in s.handlers]
            self.guards.pop()
            stored = {x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            out = set(a) if a is not None else start | stored
            out |= stored
            return self.block(s.finalbody, out)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, must)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, must)
            return self.block(s.body, must)
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return must
        for c in ast.iter_child_nodes(s):
            self.use(c, must)
        return must


class Fresh:
    """attributes of self read by an operation before anything could have assigned them, on an object just constructed"""

    def __init__(self, c, report):
        self.c, self.report, self.memo = c, report, {}

    def run(self, f, have):
        key = (id(f), frozenset(have))
        if key in self.memo:
            return set(self.memo[key])
        self.memo[key] = set(have)
        sn, cur = self_name(f), set(have)
        if sn is None:
            return cur
        guards = hasattr_guards(f.node)
        box = [cur]

        def ev(n):
            if n is None or isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                return
            if isinstance(n, (ast.If, ast.IfExp)):
                ev(n.test)
                m0 = set(box[0])
                for s in (n.body if isinstance(n, ast.If) else [n.body]):
                    ev(s)
                m1 = box[0]
                box[0] = m0
                for s in (n.orelse if isinstance(n, ast.If) else [n.orelse]):
                    ev(s)
                box[0] = box[0] | m1
            elif isinstance(n, ast.Assign):
                ev(n.value)
                for t in n.targets:
                    ev(t)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Attribute):
                    ev(ast.copy_location(ast.Attribute(n.target.value, n.target.attr, ast.Load()), n.target))
                ev(n.value)
                ev(n.target)
            elif isinstance(n, (ast.For, ast.While)):
                ev(n.iter if isinstance(n, ast.For) else n.test)
                if isinstance(n, ast.For):
                    ev(n.target)
                for s in n.body + n.orelse:
                    ev(s)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == sn:
                r = self.c.find(n.attr)
                if isinstance(n.ctx, ast.Store):
                    if r and r[1] == "prop" and "set" in r[2]:
                        box[0] = self.run(r[2]["set"], box[0])
                    box[0] = box[0] | {n.attr}
                elif r and r[1] == "prop":
                    if "get" in r[2]:
                        box[0] = self.run(r[2]["get"], box[0])
                elif r is None and n.attr not in box[0] and n.attr not in guards and "*" not in guards and not n.attr.startswith("__"):
                    self.report(f, n)
            elif isinstance(n, ast.Call):
                for x in n.args:
                    ev(x)
                for k in n.keywords:
                    ev(k.value)
                g = n.func
                r = None
                if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Call) and isinstance(g.value.func, ast.Name) and g.value.func.id == "super":
                    r = self.c.find(g.attr, after=f.cls)
                elif isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and g.value.id == sn:
                    r = self.c.find(g.attr)
                elif isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name):
                    for k in self.c.mro():
                        if k.name == g.value.id and g.attr in k.methods:
                            r = (k, "method", k.methods[g.attr])
                            break
                if r and r[1] == "method":
                    box[0] = self.run(r[2], box[0])
                else:
                    ev(g)
            else:
                for x in ast.iter_child_nodes(n):
                    ev(x)
        for s in f.node.body:
            ev(s)
        self.memo[key] = set(box[0])
        return set(box[0])


def fresh_attributes(P, c, report):
    """report(operation, function, node): an operation of a freshly built c reads an attribute nothing has assigned"""
    base = {n for k in c.mro() for n in list(k.methods) + list(k.props) + list(k.attrs)}
    stage = ["the constructor"]
    F = Fresh(c, lambda f, n: report(stage[0], f, n))
    init = c.find("__init__")
    have = F.run(init[2], base) if init and init[1] == "method" else base
    for nm in sorted({n for k in c.mro() for n in k.methods}):
        r = c.find(nm)
        if nm.startswith("_") or r[1] != "method":
            continue
        stage[0] = nm
        F.memo = {}
        F.run(r[2], have)


def foreign_attrs(P):
    """attribute names assigned on an object other than self anywhere"""
    out = set()
    for m in P.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                out.add(n.attr)
    return out


def c50(rep):
    rep.rule = ("every name, module member, attribute of self, method and call signature used by library code resolves: "
                "symbol tables per function, module namespaces with star imports, class tables with method resolution "
                "order per concrete class, signatures of callees, and the installed versions of the dependencies")
    rep.assumptions = ["objects are only given attributes by assignments visible in the source",
                       "example blocks under `if __name__ == '__main__'` are not library code"]
    P = Program()
    if not P.cls("CSamplingMethod") or not P.cls("CDistribution"):
        raise Anchor("CSamplingMethod / CDistribution not found")
    extnames, extmods, extstar = set(), set(), set()
    dead = dead_classes(P)
    # ---------- external references
    refs = []        # (dotted, mod, node, qual, call or None)
    for m in P.mods.values():
        skip = main_lines(m)
        parents = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                parents[c] = n
        for n in ast.walk(m.tree):
            if n in m.main_nodes:
                continue
            if isinstance(n, ast.ImportFrom) and not n.level:
                top = (n.module or "").split(".")[0]
                if top and top != PKG and top not in P.mods:
                    for a in n.names:
                        if a.name == "*":
                            extstar.add(n.module)
                        else:
                            refs.append((n.module + "." + a.name, m, n, "<import>", None))
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split(".")[0] != PKG:
                        refs.append((a.name, m, n, "<import>", None))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                par = parents.get(n)
                if isinstance(par, ast.Attribute):
                    continue
                # is the root a local name?
                root = n
                while isinstance(root, ast.Attribute):
                    root = root.value
                if not isinstance(root, ast.Name) or _is_local(P, m, root, parents):
                    continue
                b = P.resolve_expr(m, n)
                if b is not None and b.kind == "ext":
                    call = par if isinstance(par, ast.Call) and par.func is n else None
                    refs.append((b.val, m, n, _qual(n, parents), call))
                elif b is None:
                    # a module member that does not exist
                    base = P.resolve_expr(m, n.value) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
                    if base is not None and base.kind in ("module", "nspkg"):
                        rep.bad("member:%s:%s" % (m.name, ast.unparse(n)), "module %s has no member '%s'" % (
                            getattr(base.val, "name", base.val), n.attr), "%s:%d %s" % (m.rel, n.lineno, _qual(n, parents)))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                par = parents.get(n)
                if isinstance(par, ast.Call) and par.func is n and not _is_local(P, m, n, parents):
                    b = P.lookup(m, n.id)
                    if b is not None and b.kind == "ext":
                        refs.append((b.val, m, n, _qual(n, parents), par))
        for base, node in m.star:
            if base.split(".")[0] != PKG:
                extstar.add(base)
    for r in refs:
        extnames.add(r[0])
        extmods.add(r[0].split(".")[0])
    info = extinfo.query(extnames, extmods, extstar)
    universe = set(info["attrs"])
    nref = 0
    for name, m, n, q, call in refs:
        s = info["names"].get(name)
        where = "%s:%d %s" % (m.rel, n.lineno, q)
        nref += 1
        if s == "no":
            # an instance attribute of a class object cannot be checked this way
            rep.bad("external:%s:%s" % (m.name, name), "%s does not exist in the installed version" % name, where)
        elif s == "yes" and call is not None and name in info["sigs"]:
            msg = _ext_accepts(info["sigs"][name], *call_shape(call))
            if msg:
                rep.bad("extcall:%s:%s" % (m.name, name), "call of %s: %s" % (name, msg), where)
    rep.ok("external references", "%d references to dependencies resolve" % nref)
    # ---------- imports from the library itself
    for m in P.mods.values():
        for n in ast.walk(m.tree):
            if n in m.main_nodes or not isinstance(n, ast.ImportFrom) or n.level:
                continue
            if (n.module or "").split(".")[0] == PKG:
                for a in n.names:
                    if a.name == "*":
                        if n.module not in P.mods and n.module not in P.dirs:
                            rep.bad("import:%s:%s" % (m.name, n.module), "module %s does not exist" % n.module, "%s:%d" % (m.rel, n.lineno))
                        continue
                    if P._from(n.module, a.name, ("c50",)) is None:
                        rep.bad("import:%s:%s.%s" % (m.name, n.module, a.name), "cannot import %s from %s" % (a.name, n.module), "%s:%d" % (m.rel, n.lineno))
    # ---------- global names
    nfun = 0
    for m in P.mods.values():
        unknown_star = [b for b, _n in m.star if b.split(".")[0] != PKG and b not in info["star"]]
        starnames = {x for b, _n in m.star for x in info["star"].get(b, [])}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            top = symtable.symtable(m.source, m.path, "exec")
        loads = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n not in m.main_nodes:
                loads.setdefault(n.id, []).append(n)

        def resolves(name):
            return name in BUILTIN or name in starnames or P.lookup(m, name) is not None

        def scope(t, qual, lines):
            nonlocal nfun
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                if any(q in dead for q in qual.split(".")):
                    continue
                glob = s.is_global() if t.get_type() != "module" else True
                if not glob or unknown_star:
                    continue
                nm = s.get_name()
                if resolves(nm) or (t.get_type() == "module" and s.is_assigned()):
                    continue
                # only in a __main__ block?
                if not any(True for x in loads.get(nm, [])):
                    continue
                node = loads[nm][0]
                rep.bad("name:%s:%s" % (m.name, nm), "name '%s' is not defined" % nm,
                        "%s:%d %s" % (m.rel, node.lineno, qual))
            for c in t.get_children():
                if c.get_lineno() in main_lines(m) and t.get_type() == "module":
                    continue
                nfun += c.get_type() == "function"
                scope(c, (qual + "." if qual else "") + c.get_name(), lines)
        scope(top, "", None)
    # ---------- locals read before any assignment
    for m in P.mods.values():
        for fn, cls, q in funcs_in(m):
            loc = {n.id for n in _own_nodes(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            glob = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
            rep.functions.add(m.name + ":" + q)

            def report(n, nm, q=q, m=m):
                rep.bad("unbound:%s:%s" % (m.name, nm), "local '%s' is read before anything is assigned to it" % nm,
                        "%s:%d %s" % (m.rel, n.lineno, q))
            Unbound(fn, loc - glob, report)

            def report2(n, nm, q=q, m=m):
                rep.bad("unbound:%s:%s:%s" % (m.name, q, nm), "local '%s' is assigned under a condition only, and read whether or not it held" % nm,
                        "%s:%d %s" % (m.rel, n.lineno, q))
            Sometimes(fn, loc - glob, report2)
    rep.ok("global and local names", "%d function scopes" % nfun)
    # ---------- attributes of self, calls of own methods
    outer = outside_attrs(P)
    foreign = foreign_attrs(P)
    nattr = ncall = 0
    done = set()
    classes = list({id(c): c for m in P.mods.values() for b in m.ns.values() if b.kind == "class" and b.val.mod is m for c in [b.val]}.values())
    leafs = [c for c in classes if concrete(P, c)] + [c for c in classes if not concrete(P, c) and not any(
        d is not c and d.is_sub(c.name) for d in classes)]
    # never constructed: the constructor raises unconditionally
    for c in leafs:
        ext = [b for b in c.ext_bases() if b not in OKBASES and not b.startswith("abc.") and b.lstrip("?") not in BUILTIN]
        if ext:
            continue
        init = c.method("__init__")
        if c.name in dead:
            rep.notes.append("%s cannot be constructed" % c.name)
            continue
        attrs = assigned_attrs(P, c)
        if "*" in attrs:
            continue
        if concrete(P, c):
            def unset(op, f, n, c=c):
                k = "fresh:%s:%s" % (f.cls.name, n.attr)
                if n.attr in attrs and n.attr not in foreign and k not in done:
                    done.add(k)
                    rep.bad(k, "%s of a %s that was just constructed reads '%s', which nothing has assigned yet" % (op, c.name, n.attr),
                            "%s:%d %s" % (f.mod.rel, n.lineno, f.qual))
            fresh_attributes(P, c, unset)
        for f in visible_methods(c):
            sn = self_name(f)
            if sn is None:
                continue
            if _raises_only(f.node):
                continue
            guards = hasattr_guards(f.node)
            if "*" in guards:
                continue
            par = {}
            for n in ast.walk(f.node):
                for ch in ast.iter_child_nodes(n):
                    par[ch] = n
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == sn and isinstance(n.ctx, (ast.Load, ast.Del)):
                    nattr += 1
                    where = "%s:%d %s" % (f.mod.rel, n.lineno, f.qual)
                    if n.attr not in attrs and n.attr not in guards and not (n.attr.startswith("__") and n.attr.endswith("__")):
                        k = "selfattr:%s:%s" % (f.cls.name, n.attr)
                        if k not in done:
                            done.add(k)
                            rep.bad(k, "instances of %s have no attribute '%s'" % (c.name, n.attr), where)
                    p = par.get(n)
                    if isinstance(p, ast.Call) and p.func is n:
                        r = c.find(n.attr)
                        if r and r[1] == "method":
                            ncall += 1
                            msg = accepts(r[2].node, *call_shape(p), bound=r[2].kind != "static")
                            k = "selfcall:%s:%s" % (f.cls.name, n.attr)
                            if msg and not _stores_attr(c, n.attr) and k not in done:
                                done.add(k)
                                rep.bad(k, "%s.%s %s" % (r[0].name, n.attr, msg), where, "as called on %s" % c.name)
            for n in super_calls(f.node):
                r = c.find(n.func.attr, after=f.cls)
                where = "%s:%d %s" % (f.mod.rel, n.lineno, f.qual)
                if r is None:
                    if n.func.attr not in dir(object):
                        k = "super:%s:%s" % (f.cls.name, n.func.attr)
                        if k not in done:
                            done.add(k)
                            rep.bad(k, "no base of %s has '%s'" % (f.cls.name, n.func.attr), where)
                elif r[1] == "method":
                    ncall += 1
                    msg = accepts(r[2].node, *call_shape(n), bound=r[2].kind != "static")
                    k = "super:%s:%s" % (f.cls.name, n.func.attr)
                    if msg and k not in done:
                        done.add(k)
                        rep.bad(k, "%s.%s %s" % (r[0].name, n.func.attr, msg), where)
                # super(Class, self) must name the enclosing class or a base of it
                a = n.func.value.args
                if a:
                    b = P.resolve_expr(f.mod, a[0]) if isinstance(a[0], (ast.Name, ast.Attribute)) else None
                    if b is not None and b.kind == "class" and b.val not in c.mro():
                        k = "superclass:%s" % f.cls.name
                        if k not in done:
                            done.add(k)
                            rep.bad(k, "super() names %s, which is not a base of %s" % (b.val.name, c.name), where)
    rep.ok("attributes of self", "%d attribute uses in %d classes" % (nattr, len(leafs)))
    rep.ok("calls of own methods", "%d calls" % ncall)
    # ---------- calls of library functions and classes; methods of objects of unknown type
    libattrs = {}
    for c in classes:
        for n, f in c.methods.items():
            libattrs.setdefault(n, []).append(f)
        for n in list(c.props) + list(c.attrs):
            libattrs.setdefault(n, []).append(None)
    instattrs = set()
    for c in classes:
        instattrs |= assigned_attrs(P, c)
    ncall2 = nmeth = 0
    for m in P.mods.values():
        unres = any(info["names"].get(x) == "missing" or x.split(".")[0] in {y.split(".")[0] for y in info["missing"]} for x in _ext_imports(P, m))
        parents = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                parents[c] = n
        for n in ast.walk(m.tree):
            if n in m.main_nodes or any(q in dead for q in _qual(n, parents).split(".")):
                continue
            if isinstance(n, ast.Call):
                if isinstance(n.func, (ast.Name, ast.Attribute)):
                    root = n.func
                    while isinstance(root, ast.Attribute):
                        root = root.value
                    if isinstance(root, ast.Name) and not _is_local(P, m, root, parents):
                        b = P.resolve_expr(m, n.func)
                        where = "%s:%d %s" % (m.rel, n.lineno, _qual(n, parents))
                        if b is not None and b.kind == "func":
                            ncall2 += 1
                            msg = accepts(b.val.node, *call_shape(n), bound=False)
                            if msg:
                                rep.bad("call:%s:%s" % (m.name, b.val.qual), "%s %s" % (b.val.qual, msg), where)
                            continue
                        if b is not None and b.kind == "class":
                            ncall2 += 1
                            init = b.val.find("__init__")
                            if init and init[1] == "method":
                                msg = accepts(init[2].node, *call_shape(n), bound=True)
                            else:
                                msg = None
                                if not [x for x in b.val.ext_bases() if x not in OKBASES] and (n.args or n.keywords):
                                    msg = "takes no arguments"
                            if msg:
                                rep.bad("new:%s:%s" % (m.name, b.val.name), "constructor of %s %s" % (b.val.name, msg), where)
                            miss = P.is_abstract(b.val)
                            if miss and _has_abcmeta(b.val):
                                rep.bad("newabstract:%s:%s" % (m.name, b.val.name), "%s is abstract (%s)" % (
                                    b.val.name, ", ".join(sorted(miss))), where)
                            continue
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not unres:
                root = n
                while isinstance(root, ast.Attribute):
                    root = root.value
                if isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
                    continue
                if isinstance(n.value, ast.Name) and not _is_local(P, m, n.value, parents) and P.lookup(m, n.value.id) is not None \
                        and P.lookup(m, n.value.id).kind != "var":
                    b = P.lookup(m, n.value.id)
                    if b.kind == "class" and not (n.attr.startswith("__") and n.attr.endswith("__")):
                        nmeth += 1
                        if n.attr not in assigned_attrs(P, b.val) and "*" not in assigned_attrs(P, b.val) and not b.val.ext_bases():
                            rep.bad("classattr:%s:%s.%s" % (m.name, b.val.name, n.attr), "class %s has no '%s'" % (b.val.name, n.attr),
                                    "%s:%d %s" % (m.rel, n.lineno, _qual(n, parents)))
                    continue
                rb = P.resolve_expr(m, n) if isinstance(root, ast.Name) and not _is_local(P, m, root, parents) else None
                if rb is not None:
                    continue
                nmeth += 1
                where = "%s:%d %s" % (m.rel, n.lineno, _qual(n, parents))
                if n.attr in universe or n.attr in outer or _ext_origin(P, m, n.value, parents):
                    continue
                if n.attr not in libattrs and n.attr not in instattrs:
                    rep.bad("attr:%s:%s" % (m.name, n.attr), "no object of the library or its dependencies has '%s'" % n.attr, where)
                    continue
                p = parents.get(n)
                if isinstance(p, ast.Call) and p.func is n and n.attr in libattrs and n.attr not in universe:
                    defs = libattrs[n.attr]
                    if None in defs or not defs:
                        continue
                    msgs = [accepts(f.node, *call_shape(p), bound=f.kind != "static") for f in defs]
                    if all(msgs):
                        rep.bad("methcall:%s:%s" % (m.name, n.attr), "no definition of '%s' accepts this call: %s" % (
                            n.attr, msgs[0]), where)
    rep.ok("library calls", "%d calls of functions and classes" % ncall2)
    rep.ok("attributes of other objects", "%d uses" % nmeth)
    rep.extra["references"] = nref


def dead_classes(P):
    """classes that can never be constructed: their constructor raises unconditionally"""
    out = set()
    for m in P.mods.values():
        for b in m.ns.values():
            if b.kind == "class" and b.val.mod is m:
                init = b.val.method("__init__")
                if init is not None and any(isinstance(s, ast.Raise) for s in init.node.body):
                    out.add(b.val.name)
    return out


KNOWN_LIBS = {"numpy", "matplotlib", "time", "os", "sys", "yaml", "cProfile", "pstats", "subprocess", "pathlib"}


def _ext_origin(P, m, recv, parents):
    """is the receiver an object made by a dependency whose attributes are not tabulated?"""
    root = recv
    chain = []
    while isinstance(root, (ast.Attribute, ast.Call, ast.Subscript)):
        if isinstance(root, ast.Attribute):
            chain.append(root.attr)
        root = root.func if isinstance(root, ast.Call) else root.value
    if not isinstance(root, ast.Name):
        return True

    def ext(v):
        for c in ast.walk(v):
            if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)):
                b = P.resolve_expr(m, c.func)
                if b is not None and b.kind == "ext" and b.val.split(".")[0] not in KNOWN_LIBS:
                    return True
                if b is None and isinstance(c.func, ast.Name) and c.func.id in ("eval", "getattr"):
                    return True
        return False
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign) and n.value is not None:
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and x.id == root.id and ext(n.value):
                        return True
                    if isinstance(x, ast.Attribute) and chain and x.attr == chain[-1] and ext(n.value):
                        return True
        if isinstance(n, (ast.withitem,)) and n.optional_vars is not None and isinstance(n.optional_vars, ast.Name) \
                and n.optional_vars.id == root.id and ext(n.context_expr):
            return True
    return False


def _stores_attr(c, name):
    """the method name is also assigned on instances"""
    for k in c.mro():
        for n in ast.walk(k.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name:
                return True
    return False


def _has_abcmeta(c):
    for k in c.mro():
        if any(kw.arg == "metaclass" for kw in k.node.keywords) or any("ABC" in b for b in k.bases if isinstance(b, str)):
            return True
    return False


def _ext_imports(P, m):
    for n in ast.walk(m.tree):
        if n in m.main_nodes:
            continue
        if isinstance(n, ast.Import):
            for a in n.names:
                yield a.name
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            yield n.module


def _raises_only(fn):
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise)


def _own_nodes(fn):
    """nodes of a function without nested functions, lambdas and comprehensions"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def _qual(n, parents):
    out = []
    while n in parents:
        n = parents[n]
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append(n.name)
    return ".".join(reversed(out)) or "<module>"


def _is_local(P, m, name, parents):
    """is the name bound in an enclosing function (argument, assignment, loop, import, comprehension)?"""
    n = name
    while n in parents:
        n = parents[n]
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            a = n.args
            if name.id in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}:
                return True
            if isinstance(n, ast.FunctionDef):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name.id:
                        return True
                    if isinstance(x, (ast.Import, ast.ImportFrom)) and any((al.asname or al.name.split(".")[0]) == name.id for al in x.names):
                        return True
                    if isinstance(x, ast.ExceptHandler) and x.name == name.id:
                        return True
                    if isinstance(x, ast.FunctionDef) and x is not n and x.name == name.id:
                        return True
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                if any(isinstance(x, ast.Name) and x.id == name.id for x in ast.walk(g.target)):
                    return True
    return False


def _ext_accepts(sig, npos, kws, star):
    if star:
        return None
    pos = [p for p in sig if p[1] in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "positional-only", "positional or keyword")]
    var = any("VAR_POSITIONAL" in p[1] or p[1] == "variadic positional" for p in sig)
    kw = any("VAR_KEYWORD" in p[1] or p[1] == "variadic keyword" for p in sig)
    names = {p[0] for p in sig}
    if npos > len(pos) and not var:
        return "takes at most %d positional arguments, %d given" % (len(pos), npos)
    for k in kws:
        if k not in names and not kw:
            return "has no parameter '%s'" % k
    given = {p[0] for p in pos[:npos]} | set(kws)
    for p in sig:
        if not p[2] and "VAR" not in p[1] and "variadic" not in p[1] and p[0] not in given:
            return "misses the argument '%s'" % p[0]
    return None


CHECKS = {"C50": c50}
