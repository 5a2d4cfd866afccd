"""Interfaces (C51) and shared mutable state (C52)."""
import ast
from ..src import Program, PKG
from ..report import Anchor
from .lint import accepts, call_shape, concrete, dead_classes, _raises_only, _qual

# operations of a distribution that a class may decline with NotImplementedError
DECLINABLE = ("sample", "condition", "marginal", "integral")
ROOTS = ["CSamplingMethod", "CDistribution", "CMetric"]


def library_calls(P, name):
    """(positional count, keyword names) of the calls x.name(...) made by the library itself on some other object"""
    out = set()
    for m in P.mods.values():
        for n in ast.walk(m.tree):
            if n in m.main_nodes:
                continue
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == name:
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                v = n.func.value
                if isinstance(v, ast.Name) and v.id in ("self", "cls"):
                    continue
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                    continue
                out.add((len(n.args), tuple(k.arg for k in n.keywords)))
    return out


def shapes(f):
    """positional call shapes a signature accepts (bound)"""
    a = f.node.args
    n = len(a.posonlyargs + a.args) - (0 if f.kind == "static" else 1)
    nd = len(a.defaults)
    return n - nd, (n if not a.vararg else n + 2)


def kwshapes(f):
    a = f.node.args
    names = [x.arg for x in a.args][0 if f.kind == "static" else 1:]
    return names, bool(a.kwarg)


def c51(rep):
    rep.rule = ("class table with method resolution order: for every concrete class below a base class, every public operation "
                "the base declares resolves to an implementation of the same kind that accepts every positional call the base "
                "accepts and every keyword the library's callers use")
    P = Program()
    calls = {}
    dead = dead_classes(P)
    n = 0
    for root in ROOTS:
        rc = P.cls(root)
        if rc is None:
            raise Anchor("base class %s not found" % root)
        subs = [c for c in P.subclasses(root)]
        if not subs:
            raise Anchor("no subclasses of %s" % root)
        for c in subs:
            if c.name in dead:
                rep.notes.append("%s cannot be constructed" % c.name)
                continue
            isleaf = not any(d is not c and d.is_sub(c.name) for d in P.classes.values())
            for b in c.mro()[1:]:
                for name, bf in b.methods.items():
                    if name.startswith("_"):
                        continue
                    r = c.find(name)
                    own = r[0]
                    key = "%s.%s/%s" % (c.name, name, b.name)
                    n += 1
                    rep.functions.add(own.name + "." + name)
                    if r[1] != "method":
                        rep.bad("kind:" + key, "%s declares the operation %s, %s makes it a %s" % (b.name, name, own.name, r[1]),
                                "%s:%d" % (own.mod.rel, own.node.lineno))
                        continue
                    f = r[2]
                    if f is bf:
                        if isleaf and (f.abstract or (_raises_only(f.node) and name not in DECLINABLE and _not_implemented(f.node))):
                            rep.bad("missing:" + key, "%s does not implement %s" % (c.name, name), "%s:%d %s" % (c.mod.rel, c.node.lineno, c.name))
                        else:
                            rep.ok("inherited:" + key)
                        continue
                    if own is not c and not isleaf:
                        continue
                    if (f.kind == "static") != (bf.kind == "static") or (f.kind == "class") != (bf.kind == "class"):
                        rep.bad("kind:" + key, "%s.%s is a %s, its base's is a %s" % (own.name, name, f.kind, bf.kind), f.where)
                        continue
                    if _raises_only(f.node) and _not_implemented(f.node) and name in DECLINABLE:
                        rep.ok("declined:" + key, "explicitly not offered (NotImplementedError)")
                        continue
                    if _raises_only(f.node) and not _raises_only(bf.node) and not bf.abstract and _not_implemented(f.node):
                        rep.bad("withdrawn:" + key, "%s.%s takes away an operation %s implements" % (own.name, name, b.name), f.where)
                        continue
                    late = _sometimes_declined(f.node)
                    if late is not None and name not in DECLINABLE and not bf.abstract and not _sometimes_declined(bf.node) and root == "CDistribution" \
                            or late is not None and bf.abstract and name not in DECLINABLE:
                        rep.bad("partial:" + key, "%s.%s declines some calls of an operation every %s has to offer" % (own.name, name, root),
                                "%s:%d %s" % (f.mod.rel, late.lineno, f.qual))
                        continue
                    lo, hi = shapes(bf)
                    msg = None
                    for k in range(lo, hi + 1):
                        msg = msg or accepts(f.node, k, [], False, f.kind != "static")
                    names, kw = kwshapes(bf)
                    if not msg and kw and not f.node.args.kwarg:
                        msg = "does not take the arbitrary keywords its base takes"
                    if not msg:
                        if name not in calls:
                            calls[name] = library_calls(P, name)
                        for npos, kws in calls[name]:
                            if accepts(bf.node, npos, list(kws), False, bf.kind != "static") is None:
                                m2 = accepts(f.node, npos, list(kws), False, f.kind != "static")
                                if m2:
                                    msg = "%s (the library calls it with %d positional arguments and %s)" % (m2, npos, list(kws))
                    if not msg:
                        # keyword-only parameters of the base
                        for x in bf.node.args.kwonlyargs:
                            if accepts(f.node, lo, [x.arg], False, f.kind != "static"):
                                msg = "does not take the keyword '%s'" % x.arg
                    if msg:
                        rep.bad("signature:%s.%s/%s" % (own.name, name, b.name) if own is not c else "signature:" + key,
                                "%s.%s %s, but %s.%s allows it" % (own.name, name, msg, b.name, name), f.where)
                    else:
                        rep.ok("override:" + key)
                for name, pr in b.props.items():
                    r = c.find(name)
                    key = "%s.%s/%s" % (c.name, name, b.name)
                    n += 1
                    if r[1] != "prop":
                        if r[1] == "method":
                            rep.bad("kind:" + key, "%s.%s is a property, %s makes it a %s" % (b.name, name, r[0].name, r[1]),
                                    "%s:%d" % (r[0].mod.rel, r[0].node.lineno))
                        continue
                    if r[2] is not pr:
                        for k in pr:
                            if k not in r[2]:
                                rep.bad("property:" + key, "%s redefines the property %s without its %ster" % (r[0].name, name, k),
                                        "%s:%d" % (r[0].mod.rel, r[0].node.lineno))
    # dispatch by callers: the operations the library calls on a distribution, sampler or metric parameter exist in all
    rep.extra["overrides_compared"] = n


def _not_implemented(fn):
    s = [x for x in fn.body if isinstance(x, ast.Raise)]
    return bool(s) and s[0].exc is not None and "NotImplemented" in ast.unparse(s[0].exc)


def _sometimes_declined(fn):
    """a `raise NotImplementedError` somewhere in an operation that otherwise works"""
    own = [fn]
    while own:
        n = own.pop()
        if isinstance(n, (ast.Lambda, ast.ClassDef)) or (isinstance(n, ast.FunctionDef) and n is not fn):
            continue
        if isinstance(n, ast.Raise) and n.exc is not None and "NotImplementedError" in ast.unparse(n.exc):
            return n
        own.extend(ast.iter_child_nodes(n))
    return None


# ------------------------------------------------------------------ shared mutable state
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "sort", "reverse", "add", "discard",
            "fill", "resize", "popitem", "appendleft", "popleft", "put", "itemset", "partition"}
INPLACE = {"copyto", "put", "place", "putmask", "fill_diagonal", "shuffle", "put_along_axis"}
GENERATORS = {"numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "random.Random"}
IMMUT_CALLS = {"int", "float", "str", "bool", "tuple", "frozenset", "len", "namedtuple", "property", "object", "abs", "min", "max",
               "sum", "round", "compile", "getLogger", "timer", "time", "log", "sqrt", "exp"}


def mutable_value(P, m, e):
    """'list' for displays and containers, 'array' for arrays, 'object' for instances, None for immutable or unknown"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return "list"
    if isinstance(e, ast.BinOp):
        return mutable_value(P, m, e.left) or mutable_value(P, m, e.right)
    if isinstance(e, ast.Call):
        f = e.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        b = P.resolve_expr(m, f) if isinstance(f, (ast.Name, ast.Attribute)) else None
        if b is not None and b.kind == "class":
            return "object"
        if b is not None and b.kind == "ext":
            if b.val in ("collections.defaultdict", "collections.OrderedDict", "collections.deque", "collections.Counter", "copy.copy", "copy.deepcopy"):
                return "list"
            if b.val.startswith("numpy.") and b.val.split(".")[-1] in (
                    "array", "asarray", "zeros", "ones", "empty", "full", "eye", "identity", "arange", "linspace", "zeros_like",
                    "ones_like", "diag", "concatenate", "vstack", "hstack", "tile", "repeat", "copy", "atleast_1d", "atleast_2d"):
                return "array"
            if b.val.startswith("numpy.random."):
                return "object"
            return None
        if b is None and nm in ("list", "dict", "set", "bytearray"):
            return "list"
    return None


class Mut:
    """in-place mutations made through an expression"""

    def __init__(self, fn):
        self.hits = []       # (expr string parts, node, how)
        self.fn = fn
        alias = {}
        order = [n for n in ast.walk(fn)]
        counts = {}
        for n in order:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                counts[n.id] = counts.get(n.id, 0) + 1
        for n in order:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and isinstance(n.value, (ast.Name, ast.Attribute)):
                if counts.get(n.targets[0].id) == 1:
                    alias[n.targets[0].id] = n.value
        self.alias = alias
        for n in order:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                self.add(n.func.value, n, "." + n.func.attr + "()", False)
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                for t in ts:
                    for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if isinstance(x, ast.Subscript):
                            self.add(x.value, n, "[...] =", False)
                        elif isinstance(n, ast.AugAssign):
                            self.add(x, n, "augmented assignment", True)
                            if isinstance(x, ast.Attribute):
                                self.add(x.value, n, ".%s op=" % x.attr, False)
                        elif isinstance(x, ast.Attribute):
                            self.add(x.value, n, ".%s =" % x.attr, False)
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == "out":
                        self.add(k.value, n, "out=", False)
                if isinstance(n.func, ast.Attribute) and n.args and isinstance(n.func.value, (ast.Name, ast.Attribute)):
                    if n.func.attr in INPLACE and isinstance(n.func.value, (ast.Name, ast.Attribute)) \
                            and ast.unparse(n.func.value).split(".")[0] in ("np", "numpy", "random"):
                        self.add(n.args[0], n, n.func.attr + "()", False)
                    if n.func.attr == "at" and ast.unparse(n.func.value).split(".")[0] in ("np", "numpy"):
                        self.add(n.args[0], n, ".at()", False)

    def add(self, e, node, how, aug):
        # x[i].append and x[i][j] = change what x holds: as shared as x itself
        seen = set()
        while isinstance(e, ast.Subscript):
            e = e.value
        while isinstance(e, ast.Name) and e.id in self.alias and e.id not in seen:
            seen.add(e.id)
            e = self.alias[e.id]
        if isinstance(e, (ast.Name, ast.Attribute)):
            self.hits.append((e, node, how, aug))


def attr_stores(cls, name, only_init=False):
    """plain rebindings self.name = ... in the hierarchy"""
    out = []
    for k in cls.mro():
        for mn, f in k.methods.items():
            if only_init and mn not in ("__init__",):
                continue
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                            if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == "self":
                                out.append((f, n))
    return out


def top_level(fn, node):
    return node in fn.body


def all_functions(P):
    for m in P.mods.values():
        def walk(body, cls):
            for n in body:
                if n in m.main_nodes:
                    continue
                if isinstance(n, ast.FunctionDef):
                    yield m, cls, n
                    yield from walk(n.body, cls)
                elif isinstance(n, ast.ClassDef):
                    yield from walk(n.body, n.name)
                elif isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for f in ("body", "orelse", "finalbody"):
                        yield from walk(getattr(n, f, None) or [], cls)
        yield from walk(m.tree.body, None)


def c52(rep):
    rep.rule = ("escape and mutation analysis of class attributes, default arguments, module globals, cached results and "
                "constructor arguments: an object reachable from two independently built instances is never mutated in place")
    rep.assumptions = ["objects passed in by the caller (targets, proposals) are the caller's to share"]
    P = Program()
    if P.cls("CSamplingMethod") is None or P.cls("CDistribution") is None:
        raise Anchor("base classes not found")
    funcs = list(all_functions(P))
    muts = [(m, c, f, Mut(f)) for m, c, f in funcs]
    for m, c, f in funcs:
        rep.functions.add("%s:%s%s" % (m.name, c + "." if c else "", f.name))
    # in-place mutations of attributes by name, anywhere
    attr_mut = {}
    for m, c, f, mu in muts:
        for e, node, how, aug in mu.hits:
            if isinstance(e, ast.Attribute):
                attr_mut.setdefault(e.attr, []).append((m, c, f, e, node, how, aug))
    classes = {id(b.val): b.val for m in P.mods.values() for b in m.ns.values() if b.kind == "class" and b.val.mod is m}.values()
    # 1. class attributes
    nca = 0
    for c in classes:
        for name, val in c.attrs.items():
            kind = mutable_value(P, c.mod, val)
            nca += 1
            where = "%s:%d %s" % (c.mod.rel, val.lineno, c.name)
            subs = [c] + [d for d in classes if d is not c and c in d.mro()]
            # rebinding on the class itself: counters and caches shared by all instances
            for m, oc, f, mu in muts:
                for n in ast.walk(f):
                    if isinstance(n, (ast.Assign, ast.AugAssign)):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Attribute) and t.attr == name and _is_class_ref(P, m, oc, t.value, subs):
                                rep.bad("classattr:%s.%s" % (c.name, name), "the class attribute is assigned by %s, for all instances" % f.name,
                                        "%s:%d %s" % (m.rel, n.lineno, f.name))
            if kind is None:
                continue
            bad = None
            for m, oc, f, e, node, how, aug in attr_mut.get(name, []):
                v = e.value
                onself = isinstance(v, ast.Name) and v.id in ("self", "cls") and any(s.name == oc for k in subs for s in k.mro())
                oncls = _is_class_ref(P, m, oc, v, subs)
                if not (onself or oncls or not isinstance(v, ast.Name) or v.id not in ("self", "cls")):
                    continue
                if not oncls:
                    # every instance has its own object if the constructor rebinds it
                    own = [s for s in subs if not any(top_level(g.node, n2) for g, n2 in attr_stores(s, name, True))]
                    if not own:
                        continue
                    if not onself and not any(True for s in own):
                        continue
                bad = (m, f, node, how)
                break
            if bad:
                rep.bad("classattr:%s.%s" % (c.name, name), "a mutable class attribute is changed in place (%s) by %s" % (bad[3], bad[1].name),
                        "%s:%d %s" % (bad[0].rel, bad[2].lineno, bad[1].name), "defined at " + where)
            else:
                rep.ok("classattr:%s.%s" % (c.name, name), "mutable but never changed in place", where)
    # class-level rebinding of attributes never declared in the class body
    declared = {(c.name, n) for c in classes for n in c.attrs}
    for m, oc, f, mu in muts:
        for n in ast.walk(f):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Subscript):
                        t = t.value
                    if isinstance(t, ast.Attribute) and _is_class_ref(P, m, oc, t.value, classes):
                        if not any(d[1] == t.attr for d in declared):
                            rep.bad("classattr:%s" % t.attr, "an attribute of a class is assigned by %s, for all instances" % f.name,
                                    "%s:%d %s" % (m.rel, n.lineno, f.name))
    rep.ok("class attributes", "%d class-level attributes" % nca)
    # 2. default arguments
    nd = 0
    for m, c, f, mu in muts:
        a = f.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for x, d in pairs:
            nd += 1
            kind = mutable_value(P, m, d)
            if kind is None:
                continue
            where = "%s:%d %s" % (m.rel, f.lineno, f.name)
            key = "default:%s.%s(%s)" % (c or m.name, f.name, x.arg)
            bad = None
            rebound = any(isinstance(n, ast.Name) and n.id == x.arg and isinstance(n.ctx, ast.Store) for n in ast.walk(f))
            stored = []
            for e, node, how, aug in mu.hits:
                if isinstance(e, ast.Name) and e.id == x.arg and not rebound:
                    bad = (m, f, node, how)
                elif isinstance(e, ast.Name) and e.id == x.arg and isinstance(node, ast.AugAssign) and aug:
                    bad = (m, f, node, how)
            for n in ast.walk(f):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == x.arg:
                    for t in n.targets:
                        if isinstance(t, ast.Attribute):
                            stored.append(t.attr)
                if isinstance(n, ast.Assign) and isinstance(n.value, (ast.IfExp, ast.BoolOp)):
                    if any(isinstance(y, ast.Name) and y.id == x.arg for y in
                           ([n.value.body, n.value.orelse] if isinstance(n.value, ast.IfExp) else n.value.values)):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                stored.append(t.attr)
            if not bad:
                for s in stored:
                    for m2, c2, f2, e, node, how, aug in attr_mut.get(s, []):
                        # same class family or unknown receiver
                        if isinstance(e.value, ast.Name) and e.value.id == "self":
                            k = P.cls(c2) if c2 else None
                            if c is not None and k is not None and not any(z.name == c for z in k.mro()) and not any(
                                    z.name == c2 for z in (P.cls(c).mro() if P.cls(c) else [])):
                                continue
                        elif _attr_of_other_class(P, s, c) and not _receiver_may_be(P, m2, f2, e.value, c):
                            continue
                        bad = (m2, f2, node, how)
            if bad:
                rep.bad(key, "the shared default object is changed in place (%s) by %s" % (bad[3], bad[1].name),
                        "%s:%d %s" % (bad[0].rel, bad[2].lineno, bad[1].name), "default of " + where)
            else:
                rep.ok(key, "mutable default, never changed in place", where)
    rep.ok("default arguments", "%d defaults" % nd)
    # 3. module globals
    ng = 0
    for m, c, f, mu in muts:
        gl = {x for n in ast.walk(f) if isinstance(n, ast.Global) for x in n.names}
        loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - gl
        loc |= {x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [y for y in (f.args.vararg, f.args.kwarg) if y]}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in gl:
                rep.bad("global:%s.%s" % (m.name, n.id), "a module global is assigned by %s" % f.name, "%s:%d %s" % (m.rel, n.lineno, f.name))
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id not in loc:
                b = P.lookup(m, n.func.value.id)
                v = b.val if b is not None and b.kind == "var" else None
                v = getattr(v, "value", v)
                g = P.resolve_expr(b.mod, v.func) if isinstance(v, ast.Call) and hasattr(b, "mod") and isinstance(v.func, (ast.Name, ast.Attribute)) else \
                    P.resolve_expr(m, v.func) if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) else None
                if g is not None and g.kind == "ext" and g.val in GENERATORS and n.func.attr not in ("get_state", "__repr__"):
                    rep.bad("global:%s.%s" % (m.name, n.func.value.id), "a random generator kept in a module global is advanced by %s" % f.name,
                            "%s:%d %s" % (m.rel, n.lineno, f.name))
        for e, node, how, aug in mu.hits:
            if isinstance(e, ast.Name) and e.id not in loc:
                b = P.lookup(m, e.id)
                ng += 1
                if b is not None and b.kind == "var":
                    rep.bad("global:%s.%s" % (m.name, e.id), "a module global is changed in place (%s) by %s" % (how, f.name),
                            "%s:%d %s" % (m.rel, node.lineno, f.name))
                elif b is not None and b.kind == "module":
                    rep.bad("global:%s.%s" % (m.name, e.id), "a member of a module is assigned (%s) by %s" % (how, f.name),
                            "%s:%d %s" % (m.rel, node.lineno, f.name))
            elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id not in loc:
                b = P.resolve_expr(m, e)
                if b is not None and b.kind == "var":
                    rep.bad("global:%s" % ast.unparse(e), "a module global is changed in place (%s) by %s" % (how, f.name),
                            "%s:%d %s" % (m.rel, node.lineno, f.name))
    # objects built at module level and handed to instances
    for m in P.mods.values():
        for name, b in m.ns.items():
            if b.kind != "var" or b.node in m.main_nodes:
                continue
            kind = mutable_value(P, m, b.val)
            if kind is None:
                continue
            ng += 1
            hit = None
            for m2, c2, f2, mu in muts:
                loc = {n.id for n in ast.walk(f2) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {x.arg for x in f2.args.args}
                for n in ast.walk(f2):
                    if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Name, ast.Attribute)):
                        r = P.resolve_expr(m2, n.value)
                        root = n.value
                        while isinstance(root, ast.Attribute):
                            root = root.value
                        if isinstance(root, ast.Name) and root.id not in loc and r is b:
                            for t in n.targets:
                                if isinstance(t, ast.Attribute):
                                    for m3, c3, f3, e, node, how, aug in attr_mut.get(t.attr, []):
                                        hit = (m3, f3, node, how)
            if hit:
                rep.bad("global:%s.%s" % (m.name, name), "a module-level object given to instances is changed in place (%s) by %s" % (
                    hit[3], hit[1].name), "%s:%d %s" % (hit[0].rel, hit[2].lineno, hit[1].name))
            else:
                rep.ok("global:%s.%s" % (m.name, name), "never changed in place", "%s:%d" % (m.rel, b.node.lineno))
    rep.ok("module globals", "%d uses" % ng)
    # 4. cached results
    for m, c, f in funcs:
        for d in f.decorator_list:
            t = ast.unparse(d)
            if "lru_cache" in t or t.split(".")[-1].split("(")[0] in ("cache", "memoize"):
                for n in ast.walk(f):
                    if isinstance(n, ast.Return) and n.value is not None:
                        v = n.value
                        if isinstance(v, ast.Name):
                            for a in ast.walk(f):
                                if isinstance(a, ast.Assign) and any(isinstance(x, ast.Name) and x.id == v.id for x in a.targets):
                                    v = a.value
                        k = mutable_value(P, m, v)
                        if k in ("object", "list", "array"):
                            rep.bad("cached:%s%s" % (c + "." if c else "", f.name), "a cached %s is handed to every caller" % k,
                                    "%s:%d %s" % (m.rel, f.lineno, f.name))
    # 5. functions' own attributes: f.counter += 1
    for m, c, f, mu in muts:
        for n in ast.walk(f):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                        b = P.lookup(m, t.value.id)
                        loc = {x.arg for x in f.args.args} | {y.id for y in ast.walk(f) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                        if b is not None and b.kind == "func" and t.value.id not in loc:
                            rep.bad("funcattr:%s.%s" % (t.value.id, t.attr), "state is kept on a function", "%s:%d %s" % (m.rel, n.lineno, f.name))
    # 6. constructor arguments kept and changed in place: the next instance built from them sees the change
    nctor = 0
    for c in classes:
        init = c.methods.get("__init__")
        if init is None:
            continue
        par = {x.arg for x in init.node.args.args[1:]}
        kept = {}
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and _from_param(n.value, par):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and top_level(init.node, n):
                        kept[t.attr] = n
        for name, n in kept.items():
            nctor += 1
            fam = [c] + [d for d in classes if d is not c and c in d.mro()]
            later = [x for x in attr_stores(c, name, True) if x[1] is not n and x[0] is init and x[1].lineno > n.lineno]
            fresh = bool(later)
            for m2, c2, f2, e, node, how, aug in attr_mut.get(name, []):
                if not (isinstance(e.value, ast.Name) and e.value.id == "self" and c2 in {x.name for x in fam} | {x.name for x in c.mro()}):
                    continue
                if aug and not _array_like(P, c, name, n.value):
                    continue            # numbers are replaced, not changed
                if how.startswith("."):
                    if not how.endswith(")"):
                        continue        # attribute of a collaborator the caller gave
                if fresh or any(x[0].node is f2 and x[1].lineno < node.lineno for x in attr_stores(c, name)):
                    continue
                if name in ("params",):
                    continue
                rep.bad("ctorarg:%s.%s" % (c.name, name), "an object received by the constructor is changed in place (%s) by %s" % (how, f2.name),
                        "%s:%d %s" % (m2.rel, node.lineno, f2.name))
                break
    rep.ok("constructor arguments", "%d kept by reference" % nctor)


def _array_like(P, c, name, val):
    return any(k in name for k in ("min", "max", "bounds", "support", "samples", "weights", "mean", "sigma", "cov"))


def _from_param(v, par):
    if isinstance(v, ast.Name):
        return v.id in par
    if isinstance(v, ast.Subscript):
        return isinstance(v.value, ast.Name) and v.value.id in par
    return False


def _is_class_ref(P, m, owner, e, subs):
    names = {s.name for s in subs}
    if isinstance(e, ast.Name):
        if e.id == "cls":
            return owner in names
        b = P.lookup(m, e.id)
        return b is not None and b.kind == "class" and b.val.name in names
    if isinstance(e, ast.Attribute) and e.attr == "__class__":
        return owner in names
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1:
        return owner in names
    return False


def _attr_of_other_class(P, attr, cls):
    """other classes store an attribute of that name too"""
    for c in P.classes.values():
        if c.name == cls:
            continue
        if any(True for _x in attr_stores(c, attr)):
            return True
    return False


def _receiver_may_be(P, m, f, recv, cls):
    """does the function build an instance of cls (directly or through a static maker) or take it from a container of them?"""
    if cls is None:
        return True
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and n.id == cls:
            return True
    return False


CHECKS = {"C51": c51, "C52": c52}
