"""Shipped configuration files: C44.

The files are read as data.  The loaders are interpreted over them (one target or one method at a time), the text they
evaluate is parsed, its names are resolved in the module that evaluates it and the object it builds is built by the
interpreter from the constructor's source, with exactly the parameters the file gives.
"""
import ast
import builtins
import os
import re

from ..terms import *
from ..vals import *
from .. import arr
from ..interp import Interp, State, Frame, Dead
from ..report import Anchor
from .dists import prog
from .bench import template

try:
    import yaml
except ImportError:          # nothing can be read: everything is undecided
    yaml = None

CONF = ["def_config.yaml"]


def shipped():
    P = prog()
    cb = P.classes.get("CBenchmark")
    if cb is None:
        raise Anchor("CBenchmark is gone")
    root = os.path.dirname(cb.mod.path)
    out = []
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith((".yaml", ".yml")):
                out.append((os.path.relpath(os.path.join(d, f), root), os.path.join(d, f)))
    return root, sorted(out)


def kind(doc):
    if not isinstance(doc, dict):
        return None
    return "targets" if "targets" in doc else "methods" if "methods" in doc else "settings" if "metrics" in doc or "nreps" in doc else None


def conv(it, st, v):
    if isinstance(v, dict):
        return it.mkdict(st, {const(k): conv(it, st, x) for k, x in v.items()})
    if isinstance(v, list):
        return it.mklist(st, [conv(it, st, x) for x in v])
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if v is None:
        return NONE
    if isinstance(v, (int, float)):
        return num(v)
    return const(str(v))


def back(it, st, v):
    """python text of a value the files gave"""
    if isinstance(v, Dct):
        return "{%s}" % ", ".join("%s: %s" % (back(it, st, k), back(it, st, x)) for k, x in st.heap[v.id].items.items())
    if isinstance(v, Lst):
        return "[%s]" % ", ".join(back(it, st, x) for x in st.heap[v.id].items)
    if isinstance(v, Tup):
        return "(%s,)" % ", ".join(back(it, st, x) for x in v.items)
    t = v if isinstance(v, T) else it.deref(st, v)
    if t is TRUE or t is FALSE:
        return str(t is TRUE)
    if t is NONE:
        return "None"
    if is_num(t):
        x = t.args[0]
        return str(int(x)) if x == int(x) else repr(float(x))
    if t.op == "const":
        return repr(t.args[1])
    raise ValueError("value %s" % show(t)[:80])


class Fail(Exception):
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg


def names(P, mod, tree, env):
    """names of an evaluated text that do not exist where it is evaluated"""
    bad = []
    local = {a.arg for n in ast.walk(tree) if isinstance(n, ast.Lambda) for a in n.args.args} | \
        {x.id for n in ast.walk(tree) if isinstance(n, ast.comprehension) for x in ast.walk(n.target) if isinstance(x, ast.Name)}

    def go(n):
        if isinstance(n, ast.Attribute):
            chain = ast.unparse(n)
            root = n
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in env and root.id not in local:
                b = P.lookup(mod, root.id)
                if b is None and not hasattr(builtins, root.id):
                    bad.append("name %s" % root.id)
                elif b is not None and b.kind in ("module", "nspkg"):
                    if P.resolve_expr(mod, n) is None:
                        bad.append(chain)
                return
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if n.id not in env and n.id not in local and P.lookup(mod, n.id) is None and not hasattr(builtins, n.id):
                bad.append("name %s" % n.id)
            return
        for c in ast.iter_child_nodes(n):
            go(c)
    go(tree)
    return bad


def build(text, mod, env_terms, adt, budget=[0]):
    """interpret an evaluated text in a module; Fail when it cannot give an object"""
    P = prog()
    try:
        tree = ast.parse(text.strip(), mode="eval").body
    except SyntaxError:
        raise Fail("text", "'%s' is no expression" % text.strip()[:120])
    miss = names(P, mod, tree, set(env_terms))
    if miss:
        raise Fail("name", "%s does not exist in %s" % (", ".join(miss), mod.rel))
    if not isinstance(tree, ast.Call):
        raise Fail("unsure", "no constructor call")
    b = P.resolve_expr(mod, tree.func)
    if b is None or b.kind != "class":
        raise Fail("name" if b is not None and b.kind != "ext" else "unsure", "%s is no class" % ast.unparse(tree.func))
    cls = b.val
    ab = P.is_abstract(cls)
    if ab:
        raise Fail("abstract", "%s does not implement %s" % (cls.name, ", ".join(ab)))
    it = Interp(P, adt_dists=adt)
    st = State()
    st.env.update({k: f(it, st) for k, f in env_terms.items()})
    nested = []

    def ev(it_, st, code):
        if not (code.op == "const" and isinstance(code.args[1], str)):
            return None
        where = it_.callstack[-1]
        try:
            sub = ast.parse(code.args[1].strip(), mode="eval").body
        except SyntaxError:
            nested.append("'%s', evaluated in %s, is no expression" % (code.args[1][:80], where.qual))
            raise Dead()
        bad = names(P, where.mod, sub, set(st.env))
        if bad:
            nested.append("%s does not exist in %s, where %s evaluates it" % (", ".join(bad), where.mod.rel, where.qual))
            raise Dead()
        return it_.ev(sub, Frame(where, where.mod, where.cls), st)
    it.eval_hook = ev
    from ..src import FuncInfo
    fr = Frame(FuncInfo(ast.parse("def f(): pass").body[0], mod, None, "<module>"), mod, None)
    it.curmod = mod
    dead = False
    try:
        v = it.ev(tree, fr, st)
    except Dead:
        dead, v = True, None
    it.functions_seen.add(cls.name + ".__init__")
    if nested:
        raise Fail("name", nested[0])
    if dead:
        ke = [e for e in it.events if e.kind == "keyerror"]
        if ke:
            raise Fail("parameter", "%s requires the parameter '%s'" % (cls.name, ke[-1].data["key"]))
        rs = [e for e in it.events if e.kind in ("raise", "badcall", "assert")]
        sure = [e for e in rs if not e.pc]
        if sure:
            raise Fail("rejected", "%s rejects its parameters (%s)" % (cls.name, sure[-1].where))
        raise Fail("unsure", "%s cannot be built by the analysis" % cls.name)
    return cls, it


def C44(rep):
    rep.rule = ("every shipped file is read as data and given, entry by entry, to the interpreted loaders; keys the loaders look up must be "
                "there; the text evaluated for an entry is parsed, every name in it must resolve to a concrete class in the evaluating module "
                "and its constructor, interpreted from source with exactly these parameters, must not look up another; metric names must be "
                "ones evaluate_method creates a metric for")
    rep.assumptions += ["np.array2string prints bounds np.array reads back", "constructors of the numerical libraries accept what the files give"]
    if yaml is None:
        rep.unsure("yaml", "no YAML reader here")
        return
    root, files = shipped()
    docs = []
    for rel, path in files:
        try:
            with open(path) as f:
                doc = yaml.safe_load(f)
        except yaml.YAMLError as e:
            rep.bad(rel + ":parse", "the file is not valid YAML: %s" % str(e).splitlines()[0], rel)
            continue
        k = kind(doc)
        if k is None:
            rep.unsure(rel + ":kind", "neither targets, methods nor settings", rel)
            continue
        docs.append((k, rel, doc))
    by = {k: [(r, d) for kk, r, d in docs if kk == k] for k in ("targets", "methods", "settings")}
    for k, l in by.items():
        if not l:
            raise Anchor("no shipped %s file" % k)
    t0, m0, s0 = by["targets"][0][1], by["methods"][0][1], by["settings"][0][1]
    def unit(rel, section, i):
        return "%s:%s[%d]" % (rel, section, i)
    for rel, doc in by["targets"]:
        for i, t in enumerate(doc["targets"] or []):
            rep.guard(unit(rel, "targets", i), entry, rep, unit(rel, "targets", i), rel, {**doc, "targets": [t]}, {**m0, "methods": m0["methods"][:1]}, s0, "t")
    for rel, doc in by["methods"]:
        for i, m in enumerate(doc["methods"] or []):
            rep.guard(unit(rel, "methods", i), entry, rep, unit(rel, "methods", i), rel, {**t0, "targets": t0["targets"][:1]}, {**doc, "methods": [m]}, s0, "m")
    for rel, doc in by["settings"]:
        rep.guard(rel, entry, rep, rel, rel, {**t0, "targets": t0["targets"][:1]}, {**m0, "methods": m0["methods"][:1]}, doc, "s")
        rep.guard(rel + ":metrics", metrics_known, rep, rel, doc)


def entry(rep, key, rel, bench, meth, conf, focus):
    P = prog()
    it = Interp(P)
    st = State()
    data = {"BENCHFILE": bench, "METHFILE": meth, "CONFFILE": conf}
    nm = str((bench["targets"][0] if focus == "t" else meth["methods"][0] if focus == "m" else {}).get("name", "settings"))
    built = {"t": [], "m": []}

    def yload(it_, f, args, kw, st):
        t = it.deref(st, args[0]) if args else None
        ns = [str(x.args[0]) for x in subterms(t) if x.op == "sym" and str(x.args[0]) in data] if isinstance(t, T) else []
        return conv(it, st, data[ns[0]]) if ns else NotImplemented
    for n in ("yaml.load", "yaml.safe_load", "yaml.full_load"):
        it.hooks["ext:" + n] = yload
    it.hooks["ext:pprint.pformat"] = lambda it_, f, args, kw, st: const(back(it_, st, args[0]))

    def ev(it_, st, code):
        """what is evaluated is a target before methods are loaded"""
        txt, vals = template(code)
        mod = it_.callstack[-1].mod if it_.callstack else P.classes["CBenchmark"].mod
        tt = [str(t["type"]) for t in bench["targets"]]
        what = "t" if any(txt.strip().startswith(x) for x in tt) and not built["t"] else "m"
        built[what].append((txt, vals, mod))
        return XObj(sym("TARGET" if what == "t" else "METHOD#%d" % it_.fresh(), kind="obj"))
    it.eval_hook = ev
    for c in P.classes.values():
        if c.is_sub("CMetric"):
            for op in ("pre", "post", "compute", "reset"):
                if op in c.methods:
                    it.hooks["%s.%s" % (c.name, op)] = lambda it_, f, args, kw, st: sym("val:%d" % it_.fresh(), kind="num", rank=0)
    b = it.instantiate(st, P.classes["CBenchmark"], [], {})
    dead = False
    try:
        it.method(st, b, "run", [sym(x, kind="str", rank=0) for x in ("BENCHFILE", "METHFILE", "CONFFILE", "OUTFILE")])
    except Dead:
        dead = True
    rep.functions |= {f for f in it.functions_seen if f.startswith("CBenchmark.load")}
    ke = [e for e in it.events if e.kind == "keyerror"]
    if dead and ke:
        rep.bad(key + ":keys", "the loader reads the key '%s', which '%s' in %s does not give" % (ke[-1].data["key"], nm, rel), ke[-1].where)
        return
    if dead or ke:
        rep.unsure(key + ":keys", "the loaders cannot be followed", rel)
        if dead and not built["t" if focus == "t" else "m"]:
            return
    else:
        rep.ok(key + ":keys", "every key the loaders read is given", rel)
    if focus == "s":
        return
    if not built[focus]:
        rep.unsure(key + ":built", "nothing is evaluated for the entry", rel)
        return
    txt, vals, mod = built[focus][0]
    d = sym("d", kind="num", int=True, pos=True, rank=0)
    env = {}
    for i, (t, spec) in enumerate(vals):
        if t.op == "const":
            txt = txt.replace(" _P%d_ " % i, str(t.args[1]))
        elif is_num(t):
            x = t.args[0]
            txt = txt.replace(" _P%d_ " % i, str(int(x)) if x == int(x) else repr(float(x)))
        elif t in (TRUE, FALSE):
            txt = txt.replace(" _P%d_ " % i, str(t is TRUE))
        elif t.op == "ext" and t.args[0] == ".dims":
            env["_P%d_" % i] = lambda it, st: d
        else:
            env["_P%d_" % i] = (lambda n: lambda it, st: it.box(st, mk("fresh", const("num"), const("bound%d" % n), d)))(i)
    try:
        cls, it2 = build(txt, mod, env, False if focus == "t" else True)
    except Fail as e:
        (rep.unsure if e.kind == "unsure" else rep.bad)("%s:%s" % (key, "built" if e.kind == "unsure" else e.kind), "'%s' in %s: %s" % (nm, rel, e.msg), rel)
        return
    rep.functions |= {f for f in it2.functions_seen if f.endswith("__init__")}
    rep.ok(key + ":built", "%s is built from the given parameters" % cls.name, rel)
    base = "CDistribution" if focus == "t" else "CSamplingMethod"
    (rep.ok if cls.is_sub(base) else rep.bad)(key + ":role", "%s is a %s" % (cls.name, base) if cls.is_sub(base) else "%s is no %s" % (cls.name, base), rel)


def metrics_known(rep, rel, conf):
    """each listed metric gives one more metric object than without it"""
    from .bench import Trace
    for m in conf.get("metrics") or []:
        n = len({e.data["obj"].id for e in Trace([str(m)]).evs if e.kind == "metric" and e.data["op"] == "compute"})
        if n or str(m) == "NESS":
            rep.ok("%s:metric %s" % (rel, m), "a metric", rel)
        else:
            rep.bad("%s:metric %s" % (rel, m), "no metric is computed for the configured '%s'" % m, rel)


CHECKS = {"C44": C44}
