"""Abstract interpreter: turns library functions into value graphs.

Every function is interpreted once per calling context on symbolic inputs.  Branches are joined with gated (ite) terms,
loops are summarised by solving their recurrences (invariants, sums, appended sequences, indexed stores, last values);
what cannot be summarised becomes an opaque symbol.  Nothing of the library is executed and no constraint solver is used.
"""
import ast
from .terms import *
from .terms import _nonneg as nonneg
from . import arr
from .arr import (shape, rank, length, is_bool, is_scalar, index, mask, store, concat, single, collect, lsum, npts, fill)
from .vals import *
from .src import FuncInfo, ClassInfo, ModuleInfo

MAXUNROLL = 16
UNDEF = object()


class Frame:
    def __init__(self, info, mod, cls, closure=None):
        self.info, self.mod, self.cls, self.closure = info, mod, cls, closure
        self.returns = []
        self.loops = []
        self.pc0 = 0


class LoopInfo:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Event:
    __slots__ = ("kind", "data", "pc", "loops", "where", "stack", "node", "facts")

    def __init__(self, kind, data, pc, loops, where, stack, node, facts):
        self.kind, self.data, self.pc, self.loops, self.where, self.stack, self.node, self.facts = \
            kind, data, pc, loops, where, stack, node, facts

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, self.data, self.where)


class Interp:
    def __init__(self, prog, adt_dists=True, dim=None):
        from . import npsem
        self.np = npsem
        self.prog = prog
        self.adt_dists = adt_dists
        self.adt_classes = dict(npsem.ADT_CLASSES) if adt_dists else {}          # class name -> handler(interp, st, cls, args, kwargs)
        self.dim = dim if dim is not None else sym("d", kind="num", int=True, pos=True, rank=0)
        self.events = []
        self.loopinfos = []
        self.activeloops = []          # (lid, idx)
        self.callstack = []
        self.nid = 0
        self.unsupported = {}          # reason -> [where]
        self.functions_seen = set()
        self.calls_seen = 0
        self.hooks = {}                # qualname -> callable(interp, fn, args, kwargs, st) -> V or NotImplemented
        self.ftypes = {}               # (class name, field) -> kind of symbolic object fields
        self.tag = ""                  # told apart: initial field maps of different set-ups
        self.fieldshape = {}           # (class name, field) -> fn(id term) -> shape tuple
        self.curnode = None
        self.curmod = None
        self.target_syms = set()
        self.depthlimit = 40
        self.fuel = 400000
        self.eval_hook = None
        self.sealed = set()            # fields whose content after a loop is only known by name
        self.symclasses = set()        # classes with many instances: objects are terms, fields are maps
        self.loopclasses = set()       # classes seen to be instantiated inside summarised loops
        self.fieldcells = {}
        self.fieldalias = {}

    # ------------------------------------------------------------ small helpers
    def fresh(self):
        self.nid = Interp.serial = Interp.serial + 1
        return self.nid

    serial = 0      # ids are never reused: terms and what is known about them are shared between runs

    def where(self, node=None):
        node = node or self.curnode
        m = self.curmod
        q = self.callstack[-1].qual if self.callstack else "<module>"
        return "%s:%s %s" % (m.rel if m else "?", getattr(node, "lineno", "?"), q)

    def key(self, node=None, tag=""):
        node = node or self.curnode
        chain = "/".join(c.qual for c in self.callstack[-6:])
        s = "%s%s%s:%s:%s@%s" % (self.salt, tag, self.curmod.name if self.curmod else "", getattr(node, "lineno", 0),
                               getattr(node, "col_offset", 0), chain + "#" + "/".join(self.callsites[-6:]))
        return mk("key", s, *[i for _l, i in self.activeloops])

    @property
    def callsites(self):
        return [getattr(c, "_site", "") for c in self.sites]

    sites = ()
    salt = ""           # tells repeated calls of one method from outside apart

    def unk(self, reason, *args):
        self.unsupported.setdefault(reason, [])
        w = self.where()
        if w not in self.unsupported[reason]:
            self.unsupported[reason].append(w)
        return opaque(reason, mk("key", "u%d" % self.fresh()), *args)

    def event(self, st, kind, **data):
        self.events.append(Event(kind, data, st.pc, tuple(l for l, _ in self.activeloops), self.where(),
                                 tuple(f.qual for f in self.callstack), self.curnode, st.facts))

    def ghost(self, st, k, n):
        st.heap[k] = add(st.heap.get(k, ZERO), n)

    # ------------------------------------------------------------ cells
    def box(self, st, t, bases=()):
        """array term -> new array; scalars stay terms"""
        if not isinstance(t, T):
            return t
        if not bases and (is_scalar(t) or t.op == "const"):
            return t
        i = self.fresh()
        st.heap[i] = Cell(t, bases)
        return Ref(i)

    def alloc(self, st, rec, cls=None, adt=None):
        i = self.fresh()
        st.heap[i] = rec
        return Obj(i, cls, adt)

    def mklist(self, st, items, base=None, kind=None):
        i = self.fresh()
        st.heap[i] = LRec(base, items, kind)
        return Lst(i)

    def mkdict(self, st, items, open=None):
        i = self.fresh()
        st.heap[i] = DRec(dict(items), open)
        return Dct(i)

    def cell_write(self, st, cid, t, up=True):
        c = st.heap[cid]
        old = c.t
        if t is old:
            return
        st.heap[cid] = Cell(t, c.bases)
        for k, o in self.fieldalias.get(cid, ()):
            if k in st.heap and index(st.heap[k], o) is old:      # the array is (still) the value of that attribute
                st.heap[k] = store(st.heap[k], o, t)
        if up:
            for cond, b, kind, ix in c.bases:
                nb = self._view_update(st.heap[b].t, kind, ix, t)
                self.cell_write(st, b, ite(cond, nb, st.heap[b].t))
        for k, v in list(st.heap.items()):
            if isinstance(v, Cell) and k != cid and any(b[1] == cid for b in v.bases):
                nt = v.t
                for cond, b, kind, ix in v.bases:
                    if b == cid:
                        nt = ite(cond, self._view_of(st.heap[cid].t, kind, ix), nt)
                if nt is not v.t:
                    self.cell_write(st, k, nt, up=False)

    @staticmethod
    def _view_of(t, kind, ix):
        if kind == "index":
            return index(t, ix)
        if kind == "reshape":
            return arr.reshape(t, ix)
        if kind == "col":
            return arr.col(t, ix)
        if kind == "slice":
            return arr.slice_(t, *ix)
        if kind == "T":
            return arr.transpose(t)
        if kind == "permute":
            return arr.permute(t, ix)
        return opaque("view " + kind, t)

    @staticmethod
    def _view_update(t, kind, ix, new):
        if kind == "index":
            return store(t, ix, new)
        if kind == "reshape":
            s = shape(t)
            return arr.reshape(new, s) if s is not None else opaque("write through reshape", t, new)
        if kind == "col":
            return mk("store", t, (mk("colon"), ix if isinstance(ix, T) else NONE), new)
        if kind == "slice":
            return mk("storeslice", t, ix, new)
        if kind == "T":
            return arr.transpose(new)
        if kind == "permute":
            return arr.permute(new, tuple(ix.index(i) for i in range(len(ix))))
        return opaque("write through view", t, new)

    # ------------------------------------------------------------ values <-> terms
    def deref(self, st, v):
        """value -> term (array contents, list contents, distribution, object identity)"""
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            return st.heap[v.id].t
        if isinstance(v, Lst):
            return self.list_term(st, v)
        if isinstance(v, Tup):
            return mk("tuple", *[self.deref(st, x) for x in v.items])
        if isinstance(v, (DElem, DVal)) or (isinstance(v, Obj) and v.adt == "dist"):
            return self.dterm(st, v)
        if isinstance(v, SObj):
            return v.id
        if isinstance(v, XObj):
            return v.t
        if isinstance(v, Uni):
            return ite(v.c, self.deref(st, v.a), self.deref(st, v.b))
        if isinstance(v, Obj):
            return mk("objref", v.id)
        if isinstance(v, Seq):
            r = self.iter_of(st, v)
            if r[0] == "conc":
                return concat(*[self._elem_term(st, x) for x in r[1]])
            i = sym("q%d" % self.fresh(), kind="num", int=True, nonneg=True, rank=0)
            return collect(r[1], i, single(self.deref(st, r[2](i, st))))
        if isinstance(v, (Fn, Ext, Cls, Mod, Meth, Super)):
            return mk("fnref", repr(v))
        if isinstance(v, Dct):
            return mk("dictref", v.id)
        return opaque("value", mk("key", repr(v)))

    def _elem_term(self, st, v):
        t = self.deref(st, v)
        if isinstance(v, T) and is_scalar(t):
            return t if not t.op == "const" else single(t)
        return single(t)

    def list_term(self, st, l):
        r = st.heap[l.id]
        parts = [r.base] if r.base is not None else []
        for x in r.items:
            parts.append(self._elem_term(st, x))
        return concat(*parts)

    def kind_of(self, st, v):
        if isinstance(v, (DElem, DVal)) or (isinstance(v, Obj) and v.adt == "dist"):
            return ("dist",)
        if isinstance(v, SObj):
            return ("obj", v.cls)
        if isinstance(v, Obj):
            return ("obj", v.cls)
        if isinstance(v, Ref):
            return ("arr",)
        if isinstance(v, Lst):
            r = st.heap[v.id]
            return ("list", self.elem_kind(st, v))
        if isinstance(v, T):
            return ("num",) if v is not NONE else ("none",)
        if isinstance(v, Tup):
            return ("tup", tuple(self.kind_of(st, x) for x in v.items))
        if isinstance(v, Uni):
            a, b = self.kind_of(st, v.a), self.kind_of(st, v.b)
            return a if b == ("none",) or b == a else (b if a == ("none",) else ("other",))
        return ("other",)

    def elem_kind(self, st, l):
        r = st.heap[l.id]
        if r.kind is not None:
            return r.kind
        ks = {self.kind_of(st, x) for x in r.items}
        return ks.pop() if len(ks) == 1 else (("num",) if not ks else ("other",))

    def wrap(self, st, t, kind, origin=None):
        """term -> value of the given kind"""
        if kind == ("dist",):
            return DElem(*origin) if origin else self.alloc(st, {"D": t}, None, "dist")
        if kind and kind[0] == "obj":
            return SObj(kind[1], t)
        if kind and kind[0] == "list":
            return self.mklist(st, (), t, kind[1])
        if kind and kind[0] == "tup":
            return Tup([self.wrap(st, index(t, num(k)), kk) for k, kk in enumerate(kind[1])])
        if kind == ("none",) or t is NONE:
            return t
        if kind == ("num",) and (is_scalar(t) or shape(t) is None):
            return t
        return self.box(st, t)

    # ------------------------------------------------------------ distributions as abstract data types
    def dterm(self, st, v):
        if isinstance(v, DVal):
            return v.d
        if isinstance(v, DElem):
            return index(self.list_term(st, v.lst), v.idx)
        if isinstance(v, Obj):
            rec = st.heap[v.id]
            if "models" in rec:
                ms = rec["models"]
                return mk("dist", "CMixtureModel", self.deref(st, ms), self.deref(st, rec["weights"]))
            return rec["D"]
        return self.deref(st, v)

    def set_dterm(self, st, v, d):
        if isinstance(v, DElem):
            r = st.heap[v.lst.id]
            k = v.idx
            if r.base is None and is_num(k):
                items = list(r.items)
                it = items[int(k.args[0])]
                self.set_dterm(st, it, d)
                return
            st.heap[v.lst.id] = LRec(store(self.list_term(st, v.lst), k, d), (), ("dist",))
        elif isinstance(v, Obj):
            st.heap[v.id] = {"D": d}

    def ddim(self, d):
        if d.op == "dist" and d.args[0] in ("CMultivariateNormal", "CMultivariateUniform", "CMultivariateExponential",
                                            "CMultivariateDelta"):
            s = shape(d.args[1])
            if s is not None and len(s) == 1:
                return s[0]
        m = META.get(d, {})
        if "dim" in m:
            return m["dim"]
        return self.dim

    # ------------------------------------------------------------ conditions
    def truth(self, st, v):
        """truth value of v as a boolean term"""
        if isinstance(v, Uni):
            return ite(v.c, self.truth(st, v.a), self.truth(st, v.b))
        if isinstance(v, Lst):
            return gt0(length(self.list_term(st, v)))
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, Dct):
            r = st.heap[v.id]
            return TRUE if r.items else (mk("truthy", mk("dictref", v.id)) if r.open else FALSE)
        if isinstance(v, (Obj, SObj, DElem, DVal, Fn, Cls, Ext, Mod, Meth)):
            return TRUE
        t = self.deref(st, v)
        return self.truth_term(t)

    def truth_term(self, t):
        if is_bool(t):
            return t
        if t.op == "num":
            return TRUE if t.args[0] != 0 else FALSE
        if t is NONE or t is EMPTY:
            return FALSE
        if t.op == "const":
            return TRUE if t.args[1] else FALSE
        if t.op in ("len", "size", "nnz", "trip"):
            return gt0(t)
        if t.op == "ite":
            return ite(t.args[0], self.truth_term(t.args[1]), self.truth_term(t.args[2]))
        if t.op in ("dist", "objref", "fnref", "newobj", "strcat", "fmt"):
            return TRUE
        if t.op == "poly" and all(all(a.op in ("len", "size", "nnz", "trip") for a, _ in m) and c > 0 for m, c in t.args):
            return gt0(t)
        m = META.get(t, {})
        if m.get("kind") == "num" or t.op in ("poly", "exp", "log", "abs"):
            return bnot(eq(t, ZERO))
        return mk("truthy", t)

    def decide(self, st, c):
        if c is TRUE or c is FALSE:
            return c
        if c in st.facts:
            return TRUE
        if bnot(c) in st.facts:
            return FALSE
        if c.op == "and":
            rs = [self.decide(st, a) for a in c.args]
            return band(*rs)
        if c.op == "or":
            return bor(*[self.decide(st, a) for a in c.args])
        if c.op == "not":
            return bnot(self.decide(st, c.args[0]))
        if c.op == "ite":
            x = self.decide(st, c.args[0])
            return ite(x, c.args[1], c.args[2])
        return c

    # ------------------------------------------------------------ merging
    def merge_val(self, st, c, a, b, sa, sb):
        """value that is a (of state sa) when c, else b (of sb); st: the merged state being built"""
        if a is b:
            return a
        if a is None or b is None:
            return a if b is None else b
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return a
            ca, cb = st.heap[a.id], st.heap[b.id]
            bases = tuple((band(c, x), i, k, ix) for x, i, k, ix in ca.bases) + \
                tuple((band(bnot(c), x), i, k, ix) for x, i, k, ix in cb.bases)
            # the joined array *is* one of the two: writes must be seen through it
            bases += ((c, a.id, "reshape", shape(ca.t)),) if shape(ca.t) is not None else ()
            bases += ((bnot(c), b.id, "reshape", shape(cb.t)),) if shape(cb.t) is not None else ()
            return self.box(st, ite(c, ca.t, cb.t), bases or ((FALSE, a.id, "index", ZERO),))
        if isinstance(a, Ref) and isinstance(b, T) or isinstance(a, T) and isinstance(b, Ref):
            ta, tb = self.deref(st, a), self.deref(st, b)
            if ta is NONE or tb is NONE:
                return Uni(c, a, b)
            return self.box(st, ite(c, ta, tb))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.id == b.id:
            return a
        if isinstance(a, SObj) and isinstance(b, SObj) and a.cls is b.cls:
            return SObj(a.cls, ite(c, a.id, b.id))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(st, c, x, y, sa, sb) for x, y in zip(a.items, b.items)])
        if isinstance(a, Lst) and isinstance(b, Lst):
            if a.id == b.id:
                return a
            ra, rb = st.heap[a.id], st.heap[b.id]
            if ra.base is rb.base and len(ra.items) == len(rb.items):
                return self.mklist(st, [self.merge_val(st, c, x, y, sa, sb) for x, y in zip(ra.items, rb.items)],
                                   ra.base, ra.kind or rb.kind)
            ka, kb = self.elem_kind(st, a), self.elem_kind(st, b)
            if not ra.items and ra.base is None:
                ka = kb
            if not rb.items and rb.base is None:
                kb = ka
            return self.mklist(st, (), ite(c, self.list_term(st, a), self.list_term(st, b)), ka if ka == kb else ("other",))
        if isinstance(a, DVal) and isinstance(b, DVal):
            return DVal(ite(c, a.d, b.d))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.adt is None and b.adt is None and a.cls is not None:
            ra, rb = st.heap[a.id], st.heap[b.id]
            rec = {}
            for f in set(ra) | set(rb):
                rec[f] = self.merge_val(st, c, ra.get(f), rb.get(f), sa, sb)
            return self.alloc(st, rec, a.cls)
        return Uni(c, a, b)

    def merge_rec(self, st, c, x, y, sa, sb):
        if isinstance(x, Cell):
            if x.t is y.t and x.bases == y.bases:
                return x
            return Cell(ite(c, x.t, y.t), x.bases if x.bases == y.bases else x.bases + y.bases)
        if isinstance(x, T):
            return ite(c, x, y)
        if isinstance(x, dict):
            rec = dict(x)
            for f in set(x) | set(y):
                rec[f] = self.merge_val(st, c, x.get(f), y.get(f), sa, sb)
            return rec
        if isinstance(x, LRec):
            if x.base is y.base and len(x.items) == len(y.items):
                if all(p is q for p, q in zip(x.items, y.items)):
                    return x
                return LRec(x.base, [self.merge_val(st, c, p, q, sa, sb) for p, q in zip(x.items, y.items)], x.kind or y.kind)
            tmp = self.fresh()
            sa.heap[tmp], sb.heap[tmp] = x, y
            ta, tb = self.list_term(sa, Lst(tmp)), self.list_term(sb, Lst(tmp))
            ka, kb = self.elem_kind(sa, Lst(tmp)), self.elem_kind(sb, Lst(tmp))
            del sa.heap[tmp], sb.heap[tmp]
            if not x.items and x.base is None:
                ka = kb
            if not y.items and y.base is None:
                kb = ka
            # objects that end up in a symbolic list lose their record
            return LRec(ite(c, ta, tb), (), ka if ka == kb else ("other",))
        if isinstance(x, DRec):
            items = {}
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                p, q = x.items.get(k), y.items.get(k)
                if p is None or q is None:
                    items[k] = Uni(c, p if p is not None else NONE, q if q is not None else NONE)
                else:
                    items[k] = self.merge_val(st, c, p, q, sa, sb)
            return DRec(items, x.open or y.open)
        return x

    def merge(self, c, a, b, env=True):
        """joined state: a when c, else b"""
        if a is None:
            return b
        if b is None:
            return a
        st = State({}, {}, a.pc, a.facts & b.facts)
        st.heap = dict(b.heap)
        changed = []
        for k, x in a.heap.items():
            y = b.heap.get(k, UNDEF)
            if y is UNDEF:
                st.heap[k] = x
            elif x is not y:
                changed.append(k)
        for k in [k for k in changed if isinstance(a.heap[k], (Cell, T))]:
            st.heap[k] = self.merge_rec(st, c, a.heap[k], b.heap[k], a, b)
        for k in [k for k in changed if not isinstance(a.heap[k], (Cell, T))]:
            st.heap[k] = self.merge_rec(st, c, a.heap[k], b.heap[k], a, b)
        if env:
            for n in list(a.env) + [n for n in b.env if n not in a.env]:
                x, y = a.env.get(n), b.env.get(n)
                st.env[n] = self.merge_val(st, c, x, y, a, b)
        return st

    def join_all(self, states, base_pc):
        """[(state, value)] in program order -> (state, value); conditions relative to base_pc"""
        (s, v) = states[-1]
        facts = s.facts
        s = s.copy()
        for s2, v2 in reversed(states[:-1]):
            c = band(*s2.pc[base_pc:])
            facts = facts & s2.facts
            m = self.merge(c, s2, s)
            v = self.merge_val(m, c, v2, v, s2, s)
            s = m
        s.pc = s.pc[:base_pc]
        s.facts = facts
        return s, v

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr, st):
        for s in stmts:
            if st is None:
                return None
            try:
                st = self.stmt(s, fr, st)
            except Dead:
                return None
        return st

    def stmt(self, s, fr, st):
        self.fuel -= 1
        if self.fuel < 0:
            raise RuntimeError("analysis budget exceeded")
        self.curnode = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unk("statement " + type(s).__name__)
            return st
        return m(s, fr, st)

    def s_Expr(self, s, fr, st):
        self.ev(s.value, fr, st)
        return st

    def s_Pass(self, s, fr, st):
        return st

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, fr, st):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            st.env[n] = Mod(self.prog.mods[full]) if full in self.prog.mods else Ext(full)
        return st

    def s_ImportFrom(self, s, fr, st):
        for a in s.names:
            b = self.prog._from(s.module or "", a.name, ("local",))
            st.env[a.asname or a.name] = self.from_binding(b, st) if b else Ext("%s.%s" % (s.module, a.name))
        return st

    def s_FunctionDef(self, s, fr, st):
        info = FuncInfo(s, fr.mod, None, fr.info.qual + "." + s.name)
        st.env[s.name] = Fn(info, None, st.env, fr)
        return st

    def s_ClassDef(self, s, fr, st):
        st.env[s.name] = XObj(self.unk("local class"))
        return st

    def s_Return(self, s, fr, st):
        v = self.ev(s.value, fr, st) if s.value is not None else NONE
        fr.returns.append((st, v))
        return None

    def assigned_attr(self, cls, f):
        """is self.f assigned, or f defined, anywhere in the class or its bases?"""
        if cls is None:
            return True
        for c in cls.mro():
            if not hasattr(c, "node"):
                return True
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and n.attr == f and isinstance(n.ctx, ast.Store):
                    return True
                if isinstance(n, ast.Name) and n.id == f and isinstance(n.ctx, ast.Store):
                    return True
                if isinstance(n, ast.FunctionDef) and n.name in (f, "__getattr__"):
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    return True
        return False

    def s_Raise(self, s, fr, st):
        v = None
        if s.exc is not None:
            try:
                v = self.ev(s.exc, fr, st)
            except Dead:
                v = None
        self.event(st, "raise", exc=v)
        return None

    def s_Assert(self, s, fr, st):
        c = self.cond(s.test, fr, st)
        if c is FALSE:
            msg = None
            if s.msg is not None:
                try:
                    msg = self.deref(st, self.ev(s.msg, fr, st))
                except Dead:
                    msg = None
            self.event(st, "assertfail", msg=msg)
            return None
        self.event(st, "assert", cond=c)
        st.assume(c, pc=False)
        return st

    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr, st)
                self.setattr(st, o, t.attr, XObj(mk("deleted", mk("key", t.attr))), delete=True)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr, st)
                if isinstance(o, Dct):
                    k = self.ev(t.slice, fr, st)
                    r = st.heap[o.id]
                    st.heap[o.id] = DRec({x: y for x, y in r.items.items() if x is not k}, r.open)
                else:
                    self.mutate_unknown(st, o)
        return st

    def s_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st)
        return st

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr, st), fr, st)
        return st

    def s_AugAssign(self, s, fr, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(t.id, ast.Load(), lineno=s.lineno, col_offset=s.col_offset), fr, st)
            v = self.ev(s.value, fr, st)
            r = self.aug(st, cur, s.op, v)
            if r is not cur:
                self.assign(t, r, fr, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, st)
            cur = self.getattr(st, o, t.attr)
            v = self.ev(s.value, fr, st)
            r = self.aug(st, cur, s.op, v)
            if r is not cur:
                self.setattr(st, o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr, st)
            k = self.index_val(t.slice, fr, st)
            cur = self.getitem(st, o, k)
            v = self.ev(s.value, fr, st)
            r = self.binop(st, s.op, cur, v)
            self.setitem(st, o, k, r)
        return st

    def aug(self, st, cur, op, v):
        if isinstance(cur, Ref):
            r = self.binop(st, op, cur, v)
            t = self.deref(st, r)
            if shape(self.deref(st, cur)) == () and not st.heap[cur.id].bases:
                return r
            self.event(st, "inplace", cell=cur.id)
            self.cell_write(st, cur.id, t)
            return cur
        if isinstance(cur, Lst) and isinstance(op, ast.Add):
            self.np.list_extend(self, st, cur, v)
            return cur
        return self.binop(st, op, cur, v)

    def s_If(self, s, fr, st):
        c = self.cond(s.test, fr, st)
        if c is TRUE:
            return self.block(s.body, fr, st)
        if c is FALSE:
            return self.block(s.orelse, fr, st)
        n = len(st.pc)
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(bnot(c))
        nr = len(fr.returns) + sum(len(l["breaks"]) + len(l["conts"]) for l in fr.loops)
        ra = self.block(s.body, fr, a)
        n1 = len(fr.returns) + sum(len(l["breaks"]) + len(l["conts"]) for l in fr.loops)
        rb = self.block(s.orelse, fr, b)
        n2 = len(fr.returns) + sum(len(l["breaks"]) + len(l["conts"]) for l in fr.loops)
        if ra is None and rb is None:
            return None
        if ra is None:
            if n1 == nr:
                rb.pc = rb.pc[:n] + rb.pc[n + 1:]
            return rb
        if rb is None:
            if n2 == n1:
                ra.pc = ra.pc[:n] + ra.pc[n + 1:]
            return ra
        pa, pb = ra.pc[n + 1:], rb.pc[n + 1:]
        m = self.merge(c, ra, rb)
        m.pc = ra.pc[:n]
        if any(l.get("sym") for l in fr.loops):
            # set in one branch only: otherwise what an earlier iteration set it to
            for nm in set(ra.env) ^ set(rb.env):
                v = m.env.get(nm)
                if nm not in st.env and isinstance(v, (T, Ref)):
                    t = self.deref(m, v)
                    old = opaque("stale:" + nm)
                    old = ite(c, t, old) if nm in ra.env else ite(c, old, t)
                    m.env[nm] = self.box(m, old) if isinstance(v, Ref) else old
        if pa or pb:
            m.assume(ite(c, band(*pa), band(*pb)))
        return m

    def s_Try(self, s, fr, st):
        pre = st.copy()
        r = self.block(s.body, fr, st)
        for h in s.handlers:
            h_st = pre.copy()
            flag = sym("exc:%d" % self.fresh(), kind="bool", rank=0)
            h_st.assume(flag)
            if h.name:
                h_st.env[h.name] = XObj(self.unk("exception value"))
            nr = len(fr.returns)
            hr = self.block(h.body, fr, h_st)
            if hr is not None:
                r = self.merge(flag, hr, r) if r is not None else hr
                r.pc = pre.pc
        if r is not None:
            r = self.block(s.orelse, fr, r)
        if s.finalbody:
            if r is not None:
                r = self.block(s.finalbody, fr, r)
        return r

    def s_With(self, s, fr, st):
        for i in s.items:
            v = self.ev(i.context_expr, fr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, fr, st)
        return self.block(s.body, fr, st)

    def s_Break(self, s, fr, st):
        if fr.loops:
            fr.loops[-1]["breaks"].append(st)
        return None

    def s_Continue(self, s, fr, st):
        if fr.loops:
            fr.loops[-1]["conts"].append(st)
        return None

    # ------------------------------------------------------------ loops
    def s_For(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        r = self.loop(s, fr, st, it, lambda x, f, t: self.assign(s.target, x, f, t),
                      lambda f, t: self.block(s.body, f, t))
        if r is not None and s.orelse:
            r = self.block(s.orelse, fr, r)
        return r

    def s_While(self, s, fr, st):
        r = self.loop(s, fr, st, None, None, lambda f, t: self.block(s.body, f, t), test=s.test)
        if r is not None and s.orelse:
            r = self.block(s.orelse, fr, r)
        return r

    def iter_of(self, st, v):
        """('conc', [values]) or ('sym', trip, fn(idx, st) -> value)"""
        if isinstance(v, Uni):
            v = self.concretise(st, v)
        if isinstance(v, Tup):
            return "conc", list(v.items)
        if isinstance(v, Lst):
            r = st.heap[v.id]
            if r.base is None:
                return "conc", list(r.items)
            t = self.list_term(st, v)
            k = self.elem_kind(st, v)
            if k == ("dist",):
                return "sym", length(t), lambda i, s: DElem(v, i)
            return "sym", length(t), lambda i, s: self.wrap(s, index(t, i), k)
        if isinstance(v, Ref):
            t = st.heap[v.id].t
            n = length(t)
            if is_num(n) and n.args[0] <= MAXUNROLL:
                return "conc", [self.row(st, v, num(k)) for k in range(int(n.args[0]))]
            return "sym", n, lambda i, s: self.row(s, v, i)
        if isinstance(v, Dct):
            r = st.heap[v.id]
            if not r.open:
                return "conc", list(r.items)
            return "sym", mk("len", mk("dictref", v.id)), lambda i, s: mk("index", mk("dictref", v.id), i)
        if isinstance(v, Seq):
            if v.kind == "range":
                lo, hi, step = v.parts
                n = sub(hi, lo)
                if step is not ONE:
                    if is_num(step) and is_num(n):
                        import math
                        cnt = max(0, math.ceil(n.args[0] / step.args[0]))
                        if cnt <= MAXUNROLL:
                            return "conc", [add(lo, mul(num(k), step)) for k in range(cnt)]
                    if is_num(step) and step.args[0] == -1:
                        return "sym", neg(n), lambda i, s: sub(lo, i)
                    n = mk("ceil", div(n, step))
                    return "sym", n, lambda i, s: add(lo, mul(i, step))
                if is_num(n):
                    k = max(0, int(n.args[0]))
                    if k <= MAXUNROLL:
                        return "conc", [add(lo, num(j)) for j in range(k)]
                return "sym", n, lambda i, s: add(lo, i)
            if v.kind == "enumerate":
                r = self.iter_of(st, v.parts[0])
                s0 = v.extra or ZERO
                if r[0] == "conc":
                    return "conc", [Tup([add(s0, num(k)), x]) for k, x in enumerate(r[1])]
                return "sym", r[1], lambda i, s: Tup([add(s0, i), r[2](i, s)])
            if v.kind == "zip":
                rs = [self.iter_of(st, p) for p in v.parts]
                if all(r[0] == "conc" for r in rs):
                    return "conc", [Tup(x) for x in zip(*[r[1] for r in rs])]
                sy = [r for r in rs if r[0] == "sym"]
                if len(sy) == len(rs):
                    return "sym", sy[0][1], lambda i, s: Tup([r[2](i, s) for r in rs])
            if v.kind == "reversed":
                r = self.iter_of(st, v.parts[0])
                if r[0] == "conc":
                    return "conc", r[1][::-1]
                return "sym", r[1], lambda i, s: r[2](sub(sub(r[1], ONE), i), s)
            if v.kind == "signs":
                n = v.parts[0]
                t = mk("signs", n)
                return "sym", length(t), lambda i, s: self.box(s, index(t, i))
            if v.kind == "map":
                r = self.iter_of(st, v.parts[1])
                f = v.parts[0]
                if r[0] == "conc":
                    return "conc", [self.call(st, f, [x], {}) for x in r[1]]
                return "sym", r[1], lambda i, s: self.call(s, f, [r[2](i, s)], {})
        t = self.deref(st, v)
        if t.op == "const" and isinstance(t.args[1], str):
            return "conc", [const(c) for c in t.args[1]]
        n = length(t)
        return "sym", n, lambda i, s: self.row(s, v, i) if isinstance(v, Ref) else self.wrap(s, index(t, i), None)

    def concretise(self, st, v):
        c = self.decide(st, v.c)
        if c is TRUE:
            return v.a
        if c is FALSE:
            return v.b
        return v

    def row(self, st, v, i):
        """v[i] of an array as a view"""
        t = st.heap[v.id].t
        r = index(t, i)
        if rank(t) == 1 or is_scalar(r):
            return r
        return self.box(st, r, ((TRUE, v.id, "index", i),))

    def loop(self, node, fr, st, it, bind, body, test=None):
        if it is not None:
            if isinstance(it, Uni):
                it = self.concretise(st, it)
            d = self.iter_of(st, it)
            if d[0] == "conc":
                return self.unroll(node, fr, st, d[1], bind, body)
            trip, elem = d[1], d[2]
            if trip is ZERO or isinstance(trip, T) and nonneg(neg(trip)):
                return st
        else:
            trip, elem = None, None
        return self.symloop(node, fr, st, trip, elem, bind, body, test)

    def unroll(self, node, fr, st, items, bind, body):
        outs = []
        npc = len(st.pc)
        cur = st
        for x in items:
            rec = {"breaks": [], "conts": []}
            fr.loops.append(rec)
            pc1 = len(cur.pc)
            try:
                bind(x, fr, cur)
                r = body(fr, cur)
            except Dead:
                r = None
            fr.loops.pop()
            states = [(s, None) for s in rec["conts"]] + ([(r, None)] if r is not None else [])
            outs.extend(rec["breaks"])
            if not states:
                cur = None
                break
            keep_pc = states[-1][0].pc
            cur, _ = self.join_all(states, pc1) if len(states) > 1 else (states[0][0], None)
            if len(states) == 1:
                cur.pc = keep_pc
            if not rec["breaks"] and len(states) > 1:
                pass
        if not outs:
            return cur
        states = [(s, None) for s in outs] + ([(cur, None)] if cur is not None else [])
        m, _ = self.join_all(states, npc)
        return m

    # ---- locations
    def get_loc(self, st, loc):
        k = loc[0]
        if k == "env":
            return st.env.get(loc[1])
        if k == "cell":
            c = st.heap.get(loc[1])
            return c.t if c is not None else None
        if k == "of":
            r = st.heap.get(loc[1])
            return r.get(loc[2], NONE) if r is not None else None       # not there yet
        if k == "lst":
            return Lst(loc[1]) if loc[1] in st.heap else None
        if k == "dk":
            r = st.heap.get(loc[1])
            return r.items.get(loc[2]) if r is not None else None
        if k == "h":
            if isinstance(loc[1], tuple) and loc[1] and loc[1][0] == "F" and loc[1] not in st.heap:
                return self.fsym(loc[1][1], loc[1][2])
            return st.heap.get(loc[1])

    def set_loc(self, st, loc, v):
        k = loc[0]
        if k == "env":
            st.env[loc[1]] = v
        elif k == "cell":
            self.cell_write(st, loc[1], v, up=False)
        elif k == "of":
            r = dict(st.heap[loc[1]])
            r[loc[2]] = v
            st.heap[loc[1]] = r
        elif k == "lst":
            st.heap[loc[1]] = st.heap[v.id]
        elif k == "dk":
            r = st.heap[loc[1]]
            d = dict(r.items)
            d[loc[2]] = v
            st.heap[loc[1]] = DRec(d, r.open)
        elif k == "h":
            st.heap[loc[1]] = v

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.id == b.id
        if isinstance(a, Lst) and isinstance(b, Lst):
            return a.id == b.id
        if isinstance(a, Dct) and isinstance(b, Dct):
            return a.id == b.id
        if isinstance(a, SObj) and isinstance(b, SObj):
            return a.id is b.id and a.cls is b.cls
        if isinstance(a, DElem) and isinstance(b, DElem):
            return a.lst.id == b.lst.id and a.idx is b.idx
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, (Fn, Ext, Cls, Mod)) and type(a) is type(b):
            return True
        if isinstance(a, DVal) and isinstance(b, DVal):
            return a.d is b.d
        if isinstance(a, Uni) and isinstance(b, Uni):
            return a.c is b.c and self.same(a.a, b.a) and self.same(a.b, b.b)
        return False

    def diff(self, pre, post, env=True):
        out = []
        if env:
            for n, v in post.env.items():
                if n not in pre.env:
                    out.append(("env", n))
                elif not self.same(pre.env[n], v):
                    out.append(("env", n))
        for k, x in pre.heap.items():
            y = post.heap.get(k, UNDEF)
            if y is x or y is UNDEF:
                continue
            if isinstance(x, Cell):
                if x.t is not y.t:
                    out.append(("cell", k))
            elif isinstance(x, dict):
                for f in y:
                    if f not in x or not self.same(x[f], y[f]):
                        out.append(("of", k, f))
            elif isinstance(x, LRec):
                if not (x.base is y.base and len(x.items) == len(y.items) and
                        all(self.same(p, q) for p, q in zip(x.items, y.items))):
                    out.append(("lst", k))
            elif isinstance(x, DRec):
                for f in y.items:
                    if f not in x.items or not self.same(x.items[f], y.items[f]):
                        out.append(("dk", k, f))
            elif isinstance(x, T):
                if x is not y:
                    out.append(("h", k))
        for k, y in post.heap.items():
            if k not in pre.heap and not isinstance(k, int):
                out.append(("h", k))
        return out

    def loc_name(self, loc):
        return "/".join(str(x) if not isinstance(x, T) else show(x) for x in loc)

    def havoc_value(self, st, name, init, like, init_st, like_st):
        v, m = self._havoc_value(st, name, init, like, init_st, like_st)
        if m is not None and name.startswith("h/('F'"):
            f = arr.fieldfn(init) if isinstance(init, T) else None
            if f is not None:
                META[m] = dict(META.get(m, {}), field=f)
        return v, m

    def _havoc_value(self, st, name, init, like, init_st, like_st):
        """fresh symbolic value standing for a loop carried location -> (value, mu term or None)"""
        ik = self.kind_of(init_st, init) if init is not None else None
        lk = self.kind_of(like_st, like) if like is not None else ik
        kind = lk if ik is None or ik == ("none",) else (ik if lk == ("none",) else lk)
        ti = self.deref(init_st, init) if init is not None else None
        tl = self.deref(like_st, like) if like is not None else None
        if kind is None:
            return XObj(self.unk("loop carried value " + name)), None
        if kind[0] in ("num", "arr"):
            meta = {}
            si = shape(ti) if ti is not None else None
            sl = shape(tl) if tl is not None else None
            if ti is EMPTY:
                si = None if sl is None else (ZERO,) + tuple(sl[1:])
            m = sym("mu%d:%s" % (self.fresh(), name))
            isb = (tl is not None and is_bool(tl)) or (tl is None and ti is not None and is_bool(ti))
            if si == () and (sl == () or tl is None):
                if isb:
                    META[m] = {"kind": "bool", "rank": 0}
                elif ti is NONE:
                    META[m] = {"rank": 0, "shape": ()}
                elif ti.op == "const" or (tl is not None and tl.op == "const"):
                    META[m] = {"kind": "other", "shape": ()}
                else:
                    META[m] = {"kind": "num", "rank": 0}
                    if all(x is None or self.intlike(x) for x in (ti, tl)):
                        META[m]["int"] = True
                    if all(x is None or self.counterlike(x) for x in (ti,)) and self.increments(tl):
                        META[m]["nonneg"] = True
            elif si is not None and sl is not None and len(si) == len(sl):
                dims = []
                for k, (x, y) in enumerate(zip(si, sl)):
                    if x is y or self.dim_same(x, y):
                        dims.append(x)
                    elif k == 0:
                        dims.append(mk("len", m))
                    else:
                        dims.append(y)
                META[m] = {"shape": tuple(dims)}
            elif si is not None and sl is None and tl is None:
                META[m] = {"shape": (mk("len", m),) + tuple(si[1:]) if si else ()}
            elif sl is not None and si is not None and len(si) != len(sl):
                META[m] = {"shape": (mk("len", m),) + tuple(sl[1:])} if len(sl) >= 1 else {}
            if isb and "kind" not in META.get(m, {}):
                META.setdefault(m, {})["kind"] = "bool"
            if maybe_none(ti) or maybe_none(tl):
                META[m] = dict(META.get(m, {}), maybe=True)
            if si == () and (sl == () or tl is None):
                return m, m
            i = self.fresh()
            st.heap[i] = Cell(m)
            return Ref(i), m
        if kind[0] == "list":
            m = sym("mu%d:%s" % (self.fresh(), name))
            ek = kind[1]
            if init is not None and isinstance(init, Lst) and isinstance(like, Lst):
                a, b = self.elem_kind(init_st, init), self.elem_kind(like_st, like)
                ra = init_st.heap[init.id]
                ek = b if (not ra.items and ra.base is None) else a
            sl = shape(tl) if tl is not None else None
            META[m] = {"shape": (mk("len", m),) + tuple(sl[1:] if sl else ())} if sl is not None else {}
            if tl is not None and ti is not None and self.dim_same(length(tl), length(ti)):
                META[m] = {"shape": (length(ti),) + tuple(sl[1:] if sl else ())}
            return self.mklist(st, (), m, ek), m
        if kind[0] == "dist":
            m = sym("mu%d:%s" % (self.fresh(), name), kind="dist")
            return self.alloc(st, {"D": m}, None, "dist"), m
        if kind[0] == "obj":
            m = sym("mu%d:%s" % (self.fresh(), name), kind="objid", rank=0)
            META[m]["shape"] = ()
            return SObj(kind[1], m), m
        if kind[0] == "tup" and (init is None or isinstance(init, Tup)) and (like is None or isinstance(like, Tup)):
            return XObj(self.unk("loop carried tuple")), None
        return XObj(self.unk("loop carried value " + name)), None

    def intlike(self, t):
        if t.op == "num":
            return t.args[0].denominator == 1
        if t.op in ("len", "size", "trip", "nnz", "idx", "randint", "ceil", "floor"):
            return True
        if t.op == "sym":
            return META.get(t, {}).get("int", False)
        if t.op == "poly":
            return all(c.denominator == 1 and all(self.intlike(a) and e.denominator == 1 and e > 0 for a, e in m)
                       for m, c in t.args)
        if t.op == "ite":
            return self.intlike(t.args[1]) and self.intlike(t.args[2])
        return False

    def counterlike(self, t):
        from .terms import _nonneg
        return _nonneg(t)

    def increments(self, t):
        if t is None:
            return True
        from .terms import _nonneg
        if t.op == "ite":
            return self.increments(t.args[1]) and self.increments(t.args[2])
        p = poly_of(t)
        return all(c > 0 and all(_nonneg(a) or (a.op == "sym" and str(a.args[0]).startswith("mu")) for a, _e in m)
                   for m, c in p.items())

    def dim_same(self, x, y):
        d = sub(x, y)
        if d is ZERO or arr.contains_op(d, "ite"):
            return d is ZERO          # sampled comparison may never see one of the branches
        return equal(x, y)

    def symloop(self, node, fr, st, trip, elem, bind, body, test):
        """summary of a loop with a symbolic number of iterations"""
        lid = "L%d" % self.fresh()
        W = {}            # loc -> (like value, like state) of the previous round
        ev0, li0 = len(self.events), len(self.loopinfos)
        npc = len(st.pc)
        nret = len(fr.returns)
        shapes_prev = None
        for rnd in range(9):
            del self.events[ev0:], self.loopinfos[li0:], fr.returns[nret:]
            idx = sym("i%d" % self.fresh(), kind="num", int=True, nonneg=True, rank=0)
            head = st.copy()
            head.pc = st.pc
            mus = {}
            for loc in sorted(W, key=self.loc_name):
                like, lst = W[loc]
                init = self.get_loc(st, loc)
                if loc[0] == "env" and loc[1] not in st.env:
                    continue
                if loc[0] == "lst":
                    v, m = self.havoc_value(head, self.loc_name(loc), init, like, st, lst)
                elif loc[0] == "cell" or loc[0] == "h":
                    v, m = self.havoc_value(head, self.loc_name(loc), init, like, st, lst)
                    if isinstance(v, Ref):
                        v = head.heap[v.id].t
                    elif isinstance(v, XObj):
                        v = v.t
                else:
                    v, m = self.havoc_value(head, self.loc_name(loc), init, like, st, lst)
                self.set_loc(head, loc, v)
                mus[loc] = m
            base = head.copy()
            c = TRUE
            self.activeloops.append((lid, idx))
            rec = {"breaks": [], "conts": [], "sym": True}
            fr.loops.append(rec)
            s1 = head
            condev = len(self.events)
            try:
                if test is not None:
                    self.curnode = node
                    c = self.cond(test, fr, s1)
                    base = s1.copy()
                    s1.assume(c)
                else:
                    bind(elem(idx, s1), fr, s1)
                r = None if c is FALSE else body(fr, s1)
            except Dead:
                r = None
            fr.loops.pop()
            self.activeloops.pop()
            if c is FALSE:
                return base
            ends = [(s, None) for s in rec["conts"]] + ([(r, None)] if r is not None else [])
            post = None
            if ends:
                post, _ = self.join_all(ends, npc)
            outs = [post] if post is not None else []
            allouts = outs + rec["breaks"] + [s for s, _v in fr.returns[nret:]]
            new = {}
            for o in allouts:
                for loc in self.diff(base, o):
                    if loc[0] in ("cell", "of", "lst", "dk") and loc[1] not in st.heap:
                        continue        # part of a value invented for this round
                    if loc[0] == "env" and loc[1] not in st.env and o is not post and post is not None:
                        continue
                    if loc not in new:
                        src = post if post is not None else o
                        new[loc] = (self.get_loc(src, loc), src)
            # keep earlier locations too
            sig = []
            for loc in W:
                if loc not in new:
                    src = post if post is not None else (allouts[0] if allouts else base)
                    new[loc] = (self.get_loc(src, loc), src)
            for loc in sorted(new, key=self.loc_name):
                v, s = new[loc]
                t = self.deref(s, v) if v is not None else NONE
                sh = shape(t)
                sig.append((loc, None if sh is None else len(sh), self.kind_of(s, v) if v is not None else None))
            stable = set(new) <= set(W) and sig == shapes_prev
            shapes_prev = sig
            W = new
            if stable:
                break
        # ---------------- solve the recurrences
        return self.close_loop(node, fr, st, lid, idx, trip, c, test, W, mus, base, post, rec, nret, npc, ev0, li0)

    def close_loop(self, node, fr, st, lid, idx, trip, c, test, W, mus, base, post, rec, nret, npc, ev0, li0):
        breaks = rec["breaks"]
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        exits = bool(breaks) or bool(rets)
        full_trip = trip
        if test is not None or exits:
            T_ = mk("trip", mk("key", lid, *[i for _l, i in self.activeloops]))
        else:
            T_ = trip
        init, step = {}, {}
        for loc in W:
            v0 = self.get_loc(st, loc)
            init[loc] = self.deref(st, v0) if v0 is not None else None
            if post is not None:
                v1 = self.get_loc(post, loc)
                step[loc] = self.deref(post, v1) if v1 is not None else None
            else:
                step[loc] = None
        for loc in W:
            # an attribute that is not there when the loop starts, and is read in it
            if loc[0] == "of" and loc[2] not in (st.heap.get(loc[1]) or {loc[2]: 0}) and mus.get(loc) is not None:
                seen = [s for s in step.values() if isinstance(s, T)] + [x for x in [c] + list(rec["breaks"]) if isinstance(x, T)]
                seen += [x for e in self.events[ev0:] for x in e.data.values() if isinstance(x, T)]
                if any(contains(s, mus[loc]) for s in seen):
                    self.event(st, "noattr", cls="", attr=loc[2])
        closed = {}       # loc -> fn(k) value before iteration k
        musyms = {m: loc for loc, m in mus.items() if m is not None}
        pending = [loc for loc in W]
        sols = {}

        def close_term(t, k):
            """substitute solved mus (value at iteration start k) in a term"""
            return subst(t, {m: sols[l](k) for m, l in musyms.items() if l in sols and contains(t, m)})

        def give_up(loc):
            m = mus.get(loc)
            nm = "%s:%s" % (lid, self.loc_name(loc))
            like = step[loc] if step[loc] is not None else init[loc]
            sols[loc] = (lambda nm, like, i0, m: lambda k: i0 if k is ZERO and i0 is not None
                         else self.loopout(nm, like, k, m))(nm, like, init[loc], m)
            pending.remove(loc)

        progress = True
        while pending:
            if not progress:
                # recurrences that stay open get a name; sums over them can then still be written down
                hard = [l for l in pending if not self.additive(mus.get(l), step[l])]
                for loc in hard or list(pending):
                    give_up(loc)
            progress = False
            for loc in list(pending):
                m, s, i0 = mus.get(loc), step[loc], init[loc]
                if s is None:
                    if post is None and i0 is not None:
                        sols[loc] = (lambda i0: lambda k: i0)(i0)
                        pending.remove(loc)
                        progress = True
                    continue
                free = [x for x in subterms(s) if x in musyms and x is not m and musyms[x] not in sols]
                f = self.solve_one(loc, m, s, i0, idx, musyms, sols, close_term, free)
                if f is not None:
                    sols[loc] = f
                    pending.remove(loc)
                    progress = True
        # ---------------- loop record
        info = LoopInfo(lid=lid, node=node, func=fr.info, mod=fr.mod, kind="while" if test is not None else "for", trip=T_,
                        range=full_trip, idx=idx, cond=c, mus=mus, init=init, step=step, sols=sols, musyms=musyms,
                        ev=(ev0, len(self.events)), breaks=[band(*b.pc[npc:]) for b in breaks] + [band(*s.pc[npc:]) for s, _v in rets],
                        rets=[band(*s.pc[npc:]) for s, _v in rets], where=self.where(node),
                        outer=tuple(l for l, _ in self.activeloops), stack=tuple(f.qual for f in self.callstack),
                        base=base, post=post, pre=st)
        self.loopinfos.append(info)
        LOOPEND["L%s" % str(lid).lstrip("L")] = self.fresh()
        # ---------------- state after the loop
        def at(k):
            """state at the start of iteration k (after k iterations)"""
            o = st.copy()
            if post is not None:
                prev = sub(k, ONE)
                m_ = {idx: prev}
                for mm, l in musyms.items():
                    m_[mm] = sols[l](prev)
                self.import_new(o, base, post, m_)
            for loc in W:
                v0 = self.get_loc(st, loc)
                v1 = self.get_loc(post, loc) if post is not None else None
                like = v1 if v1 is not None else v0
                t = sols[loc](k)
                if like is None:
                    continue
                if loc[-1] in self.sealed and not self.activeloops and isinstance(t, T) and arr.rank(t):
                    # what the loop left, as one array of known shape
                    t = mk("fresh", const("num"), mk("key", "%s:%s" % (lid, self.loc_name(loc)), k), *arr.shape(t))
                if loc[0] in ("cell", "h"):
                    self.set_loc(o, loc, t)
                elif loc[0] == "lst":
                    kk = self.elem_kind(post, like) if post is not None else self.elem_kind(st, like)
                    o.heap[loc[1]] = LRec(t, (), kk)
                else:
                    src = post if v1 is not None else st
                    kk = self.kind_of(src, like)
                    if kk[0] in ("other", "tup", "none") or (kk[0] == "obj" and isinstance(like, Obj)):
                        # structured value: keep the last one (if the loop ran)
                        nv = self.subst_val(o, like, m_ if post is not None else {})
                        if v0 is None:
                            self.set_loc(o, loc, nv)
                        else:
                            self.set_loc(o, loc, self.merge_val(o, gt0(k), nv, v0, o, o))
                    elif kk == ("arr",):
                        i = self.fresh()
                        o.heap[i] = Cell(t)
                        self.set_loc(o, loc, Ref(i))
                    else:
                        self.set_loc(o, loc, self.wrap(o, t, kk))
            return o

        if not exits:
            after = at(T_)
            if test is not None:
                cc = c
                for mm, l in musyms.items():
                    if contains(cc, mm):
                        cc = subst(cc, {mm: sols[l](T_)})
                cc = subst(cc, {idx: T_})
                self.refresh_env_sol(after)
                after.assume(bnot(cc), pc=False)
            after.pc = st.pc
            return after
        # early exits: by break or return in iteration k
        k = mk("trip", mk("key", lid, *[i for _l, i in self.activeloops]))
        norm = at(k)
        norm.pc = st.pc
        norm.facts = st.facts
        kinds = []
        for b in breaks:
            kinds.append(self.exit_kind(b, base, post, W))
        if rets or any(x == "mid" for x in kinds):
            flagged = []
            last = sub(k, ONE)
            m_ = {idx: last}
            for mm, l in musyms.items():
                m_[mm] = sols[l](last)
            n = 0
            endless = test is not None and c is TRUE and not breaks     # left by returning only
            for s, v in rets:
                flag = self.exitflag("ret:%s:%d" % (lid, n)) if not endless or len(rets) > 1 else TRUE
                n += 1
                o = at(last)
                self.overlay(o, base, s, m_)
                vv = self.subst_val(o, v, m_)
                o.pc = st.pc + (flag,) if flag is not TRUE else st.pc
                o.facts = st.facts | frozenset(subst(x, m_) for x in s.facts - st.facts)
                o.env = dict(st.env)
                fr.returns.append((o, vv))
            if endless:
                return None
            mids = [b for b, kd in zip(breaks, kinds) if kd == "mid"]
            if mids:
                for b in mids:
                    flag = self.exitflag("brk:%s:%d" % (lid, n))
                    n += 1
                    o = at(last)
                    self.overlay(o, base, b, m_)
                    o.pc = st.pc
                    norm = self.merge(flag, o, norm)
            if rets:
                for q in range(len(rets)):
                    norm.facts = norm.facts | {bnot(sym("ret:%s:%d" % (lid, q)))}
                norm.pc = st.pc
                if test is None and not breaks:
                    # all returns missed: the loop ran completely
                    full = at(full_trip)
                    full.pc, full.facts = norm.pc, norm.facts
                    norm = full
            norm.pc = st.pc
        return norm

    def refresh_env_sol(self, o):
        pass

    def exitflag(self, nm):
        if not self.activeloops:
            return sym(nm, kind="bool", rank=0)
        return mk("pred", nm, *[i for _l, i in self.activeloops])

    def loopout(self, nm, like, k, m):
        """the value of loop variable nm after k iterations (of the current iterations of the loops around)"""
        outer = tuple(i for _l, i in self.activeloops)
        t = mk("loopout", nm, k, *outer)
        if nm not in LOOPMETA and m is not None:
            LOOPMETA[nm] = (m, outer, dict(META.get(m, {})))
        return t

    def exit_kind(self, b, base, post, W):
        """where in the iteration a break leaves: 'start' (nothing changed yet), 'end' (as the normal end) or 'mid'"""
        if all(loc[0] == "env" and loc[1] not in base.env or self._loc_same(b, base, loc) for loc in W):
            return "start"
        if post is not None:
            c = b.facts
            ok = True
            for loc in W:
                x, y = self.get_loc(b, loc), self.get_loc(post, loc)
                if x is None and y is None:
                    continue
                if x is None or y is None:
                    ok = False
                    break
                tx, ty = self.deref(b, x), self.deref(post, y)
                for f in c:
                    tx = restrict(tx, f, True)
                    ty = restrict(ty, f, True)
                if tx is not ty:
                    ok = False
                    break
            if ok:
                return "end"
        return "mid"

    def _loc_same(self, a, b, loc):
        x, y = self.get_loc(a, loc), self.get_loc(b, loc)
        if x is None or y is None:
            return x is y
        return self.deref(a, x) is self.deref(b, y)

    def subst_val(self, st, v, m):
        """value with terms substituted (new heap records are imported beforehand)"""
        if isinstance(v, T):
            return subst(v, m)
        if isinstance(v, Tup):
            return Tup([self.subst_val(st, x, m) for x in v.items])
        if isinstance(v, SObj):
            return SObj(v.cls, subst(v.id, m))
        if isinstance(v, DElem):
            return DElem(v.lst, subst(v.idx, m))
        if isinstance(v, DVal):
            return DVal(subst(v.d, m))
        if isinstance(v, XObj):
            return XObj(subst(v.t, m))
        if isinstance(v, Uni):
            c = subst(v.c, m)
            if c is TRUE:
                return self.subst_val(st, v.a, m)
            if c is FALSE:
                return self.subst_val(st, v.b, m)
            return Uni(c, self.subst_val(st, v.a, m), self.subst_val(st, v.b, m))
        return v

    def subst_rec(self, st, x, m):
        if isinstance(x, Cell):
            return Cell(subst(x.t, m), tuple((subst(c, m), b, k, subst(ix, m) if isinstance(ix, T) else ix) for c, b, k, ix in x.bases))
        if isinstance(x, T):
            return subst(x, m)
        if isinstance(x, dict):
            return {f: self.subst_val(st, v, m) for f, v in x.items()}
        if isinstance(x, LRec):
            return LRec(subst(x.base, m) if x.base is not None else None, [self.subst_val(st, v, m) for v in x.items], x.kind)
        if isinstance(x, DRec):
            return DRec({f: self.subst_val(st, v, m) for f, v in x.items.items()}, x.open)
        return x

    def import_new(self, o, base, post, m):
        """bring records allocated in the loop body into the state after the loop"""
        for k, x in post.heap.items():
            if k not in o.heap and isinstance(k, int):
                o.heap[k] = self.subst_rec(o, x, m)

    def overlay(self, o, base, s, m):
        """apply the changes of a partial iteration (from base to s) to o"""
        self.import_new(o, base, s, m)
        locs = self.diff(base, s)
        for n in base.env:
            if ("env", n) not in locs and n in s.env:
                tb, ts = self.deref(base, base.env[n]), self.deref(s, s.env[n])
                if tb is not None and ts is not None and tb is not ts:
                    locs.append(("env", n))
        for loc in locs:
            v = self.get_loc(s, loc)
            if v is None or (loc[0] in ("cell", "of", "lst", "dk") and loc[1] not in o.heap):
                continue
            if loc[0] == "cell":
                self.set_loc(o, loc, subst(v, m))
            elif loc[0] == "h":
                self.set_loc(o, loc, subst(v, m))
            elif loc[0] == "lst":
                o.heap[loc[1]] = self.subst_rec(o, s.heap[loc[1]], m)
            else:
                self.set_loc(o, loc, self.subst_val(o, v, m))

    @staticmethod
    def additive(m, s):
        """the recurrence m' = s adds something that does not depend on m"""
        if m is None or s is None or not contains(s, m):
            return False
        if s.op == "concat":
            return s.args[0] is m and not any(contains(x, m) for x in s.args[1:]) or \
                s.args[-1] is m and not any(contains(x, m) for x in s.args[:-1])
        return arr.shape(s) == () and not contains(sub(s, m), m)

    def solve_one(self, loc, m, s, i0, idx, musyms, sols, close_term, free):
        """closed form fn(k) of a recurrence m' = s(m, idx), m = i0 at iteration 0; None when not (yet) solvable"""
        if m is not None and s is m:
            return lambda k: i0
        selfref = m is not None and contains(s, m)
        if not selfref:
            if free:
                return None
            last = lambda k: close_term(subst(s, {idx: sub(k, ONE)}) if contains(s, idx) else s, sub(k, ONE))
            if i0 is None:
                return last
            if last(ONE) is i0 and not contains(s, idx) and not any(x in musyms for x in subterms(s)):
                return lambda k: i0
            return lambda k: ite(gt0(k), last(k), i0) if k is not ZERO else i0
        if i0 is NONE and not contains(s, idx):
            # set once, on the first occasion
            v = subst(s, {m: NONE})
            if not any(x in musyms for x in subterms(v)) and isnone_of(v) is FALSE and subst(s, {m: v}) is v:
                return lambda k: NONE if k is ZERO else ite(gt0(k), v, NONE)
        if free:
            return None
        # additive
        if arr.shape(s) == () or (s.op == "poly" and i0 is not None):
            d = sub(s, m)
            if not contains(d, m):
                dd = close_term(d, idx)
                return lambda k: add(i0, lsum(k, idx, dd))
        if s.op == "ite" and not contains(s.args[0], m):
            # conditional increment / append was not factored
            pass
        if s.op == "concat" and s.args[0] is m:
            rest = concat(*s.args[1:])
            if not contains(rest, m):
                r = close_term(rest, idx)
                return lambda k: concat(i0, collect(k, idx, r))
        if s.op == "concat" and s.args[-1] is m:
            rest = concat(*s.args[:-1])
            if not contains(rest, m):
                r = close_term(rest, idx)
                return lambda k: concat(collect(k, idx, subst(r, {idx: sub(sub(k, ONE), idx)})), i0)
        # accumulate-or-start idioms modulo layout: ite(empty?(m), start, concat(m, x))
        if s.op == "ite":
            a, b = s.args[1], s.args[2]
            for full_, st_ in ((a, b), (b, a)):
                if full_.op == "concat" and full_.args[0] is m and not contains(st_, m):
                    rest = concat(*full_.args[1:])
                    if not contains(rest, m) and arr.erase(rest) is arr.erase(st_) and i0 is EMPTY:
                        r = close_term(rest, idx)
                        return lambda k: concat(i0, collect(k, idx, r))
        # indexed stores
        chain = []
        x = s
        while x.op == "store" and x is not m:
            chain.append((x.args[1], x.args[2]))
            x = x.args[0]
        if x is m and len(chain) == 1:
            key, v = chain[0]
            kt = key if isinstance(key, tuple) else (key,)
            if len(kt) == 1 and kt[0].op == "newobj" and i0 is not None and contains(v, m):
                # only objects made in this loop are written: older ones keep what they had
                v = subst(v, {y: index(i0, y.args[1]) for y in subterms(v) if y.op == "index" and y.args[0] is m and isinstance(y.args[1], T)
                              and not contains(y.args[1], idx) and not is_opaque(y.args[1]) and arr.distinct(y.args[1], kt[0])
                              and not any(z in musyms for z in subterms(y.args[1]))})
            if not contains(v, m) and not any(contains(z, m) for z in kt):
                v2 = close_term(v, idx)
                kt2 = tuple(close_term(z, idx) for z in kt)
                return lambda k: fill(i0, (idx, k), kt2, v2)
            # self reference to the element being replaced only
            el = m
            for z in kt:
                el = index(el, z)
            if len(kt) == 1 and kt[0] is idx and i0 is not None:
                v3 = subst(v, {el: index(i0, idx)})
                if not contains(v3, m):
                    v2 = close_term(v3, idx)
                    return lambda k: fill(i0, (idx, k), kt, v2)
        if x.op == "fill" or s.op == "fill":
            b, loops, key, v = s.args if s.op == "fill" else (None,) * 4
            if b is m and not contains(v, m) and not any(contains(z, m) for z in key):
                v2 = close_term(v, idx)
                key2 = tuple(close_term(z, idx) for z in key)
                return lambda k: fill(i0, (idx, k) + tuple(loops), key2, v2)
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr, st):
        self.curnode = e
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return XObj(self.unk("expression " + type(e).__name__))
        return m(e, fr, st)

    def cond(self, e, fr, st):
        v = self.ev(e, fr, st)
        t = self.truth(st, v)
        if shape(t) not in ((), None):
            t = arr.reduce("any", t) if all(d is ONE for d in shape(t)) else mk("truthy", t)
            if t.op == "any":
                t = arr.erase(t.args[0])
                for _ in shape(t) or ():
                    t = index(t, ZERO)
        return self.decide(st, t)

    def e_Constant(self, e, fr, st):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, (bool, int, float, str)):
            return const(v)
        if v is Ellipsis:
            return mk("const", "ellipsis", "...")
        return mk("const", type(v).__name__, repr(v))

    def e_Name(self, e, fr, st):
        if e.id in st.env:
            v = st.env[e.id]
            if isinstance(v, Uni):
                v = self.concretise(st, v)
            return v
        f = fr
        while f is not None and f.closure is not None:
            env, pf = f.closure
            if e.id in env:
                return env[e.id]
            f = pf
        return self.global_name(fr.mod, e.id, st)

    def global_name(self, mod, name, st):
        b = self.prog.lookup(mod, name)
        if b is not None:
            return self.from_binding(b, st, mod)
        if name in self.np.BUILTINS:
            return Ext("builtins." + name)
        if name == "__class__":
            return XObj(self.unk("__class__"))
        return XObj(self.unk("undefined name " + name))

    def from_binding(self, b, st, mod=None):
        if b.kind == "class":
            return Cls(b.val)
        if b.kind == "func":
            return Fn(b.val)
        if b.kind == "module":
            return Mod(b.val)
        if b.kind == "nspkg":
            return Ext("nspkg." + b.val)
        if b.kind == "ext":
            c = self.np.const_of(b.val)
            return c if c is not None else Ext(b.val)
        if b.kind == "var":
            try:
                fr = Frame(FuncInfo(ast.parse("def f(): pass").body[0], mod, None, "<module>"), mod, None)
                return self.ev(b.val, fr, st)
            except Exception:
                return XObj(self.unk("module variable"))
        return XObj(self.unk("binding"))

    def e_Attribute(self, e, fr, st):
        o = self.ev(e.value, fr, st)
        self.curnode = e
        return self.getattr(st, o, e.attr)

    def e_Subscript(self, e, fr, st):
        o = self.ev(e.value, fr, st)
        k = self.index_val(e.slice, fr, st)
        self.curnode = e
        return self.getitem(st, o, k)

    def index_val(self, s, fr, st):
        if isinstance(s, ast.Slice):
            f = lambda x: self.deref(st, self.ev(x, fr, st)) if x is not None else NONE
            return Slc(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return Tup([self.index_val(x, fr, st) for x in s.elts])
        return self.ev(s, fr, st)

    def e_Slice(self, e, fr, st):
        return self.index_val(e, fr, st)

    def e_Tuple(self, e, fr, st):
        return Tup(self.elts(e.elts, fr, st))

    def elts(self, es, fr, st):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                d = self.iter_of(st, self.ev(x.value, fr, st))
                if d[0] == "conc":
                    out.extend(d[1])
                else:
                    out.append(XObj(self.unk("starred")))
            else:
                out.append(self.ev(x, fr, st))
        return out

    def e_List(self, e, fr, st):
        return self.mklist(st, self.elts(e.elts, fr, st))

    e_Set = e_List

    def e_Dict(self, e, fr, st):
        items = {}
        op = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, fr, st)
                if isinstance(d, Dct):
                    items.update(st.heap[d.id].items)
                    op = op or st.heap[d.id].open
                continue
            kk = self.deref(st, self.ev(k, fr, st))
            items[kk] = self.ev(v, fr, st)
        return self.mkdict(st, items, op)

    def e_JoinedStr(self, e, fr, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.deref(st, self.ev(v.value, fr, st))
                spec = ""
                if v.format_spec is not None:
                    sv = self.ev(v.format_spec, fr, st)
                    spec = sv.args[1] if isinstance(sv, T) and sv.op == "const" else "?"
                conv = {115: "s", 114: "r", 97: "a"}.get(v.conversion, "")
                parts.append(self.np.fmt1("{%s:%s}" % (conv, spec) if (spec or conv) else "%s", x))
        return self.np.strcat(*parts)

    e_FormattedValue = None

    def e_IfExp(self, e, fr, st):
        c = self.cond(e.test, fr, st)
        if c is TRUE:
            return self.ev(e.body, fr, st)
        if c is FALSE:
            return self.ev(e.orelse, fr, st)
        n = len(st.pc)
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(bnot(c))
        va = vb = None
        try:
            va = self.ev(e.body, fr, a)
        except Dead:
            a = None
        try:
            vb = self.ev(e.orelse, fr, b)
        except Dead:
            b = None
        if a is None and b is None:
            raise Dead()
        if a is None:
            st.set(b)
            st.pc = st.pc[:n]
            return vb
        if b is None:
            st.set(a)
            st.pc = st.pc[:n]
            return va
        m = self.merge(c, a, b)
        v = self.merge_val(m, c, va, vb, a, b)
        m.pc = a.pc[:n]
        st.set(m)
        return v

    def e_BoolOp(self, e, fr, st):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], fr, st)
        for x in e.values[1:]:
            c = self.decide(st, self.truth(st, v))
            if c is (FALSE if isand else TRUE):
                return v
            if c is (TRUE if isand else FALSE):
                v = self.ev(x, fr, st)
                continue
            a = st.copy()
            a.assume(c if isand else bnot(c))
            b = st.copy()
            try:
                w = self.ev(x, fr, a)
            except Dead:
                st.assume(bnot(c) if isand else c, pc=False)
                continue
            n = len(st.pc)
            m = self.merge(c if isand else bnot(c), a, b)
            m.pc = st.pc
            tv, tw = (v if isinstance(v, T) else None), (w if isinstance(w, T) else None)
            if isinstance(v, Ref):
                tv = self.deref(m, v)
            if isinstance(w, Ref):
                tw = self.deref(m, w)
            if tv is not None and tw is not None and is_bool(tv) and is_bool(tw):
                r = band(tv, tw) if isand else bor(tv, tw)
            else:
                r = self.merge_val(m, c if isand else bnot(c), w, v, a, b)
                if isinstance(r, Uni) or True:
                    cw = self.truth(m, w)
                    if not isinstance(r, T) or not is_bool(r):
                        r = band(c, cw) if isand else bor(c, cw)
            m.facts = b.facts
            st.set(m)
            v = r
        return v

    def e_UnaryOp(self, e, fr, st):
        v = self.ev(e.operand, fr, st)
        if isinstance(e.op, ast.Not):
            return bnot(self.decide(st, self.truth(st, v)))
        t = self.deref(st, v)
        if isinstance(e.op, ast.USub):
            return self.box(st, neg(t))
        if isinstance(e.op, ast.Invert):
            return self.box(st, bnot(t))
        return v

    def e_BinOp(self, e, fr, st):
        a = self.ev(e.left, fr, st)
        b = self.ev(e.right, fr, st)
        self.curnode = e
        return self.binop(st, e.op, a, b)

    def binop(self, st, op, a, b):
        return self.np.binop(self, st, op, a, b)

    def e_Compare(self, e, fr, st):
        left = self.ev(e.left, fr, st)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr, st)
            self.curnode = e
            c = self.np.compare(self, st, op, left, right)
            out = c if out is None else band(self.deref(st, out), self.deref(st, c))
            left = right
        return out if not isinstance(out, T) else self.box(st, out)

    def e_Lambda(self, e, fr, st):
        fd = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(e.body), e.body)],
                             decorator_list=[], lineno=e.lineno, col_offset=e.col_offset)
        info = FuncInfo(fd, fr.mod, None, fr.info.qual + ".<lambda>")
        return Fn(info, None, st.env, fr)

    def e_NamedExpr(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        self.assign(e.target, v, fr, st)
        return v

    def e_Starred(self, e, fr, st):
        return self.ev(e.value, fr, st)

    def comp(self, e, fr, st, elt):
        """list comprehension as a loop appending to a new list"""
        res = self.mklist(st, ())
        saved = dict(st.env)
        nm = "$comp%d" % self.fresh()
        st.env[nm] = res

        def go(gens, f, s):
            if not gens:
                v = self.ev(elt, f, s)
                self.np.list_append(self, s, s.env[nm], v)
                return s
            g = gens[0]
            it = self.ev(g.iter, f, s)

            def body(f2, s2):
                for c in g.ifs:
                    cc = self.cond(c, f2, s2)
                    if cc is FALSE:
                        return s2
                    if cc is not TRUE:
                        a, b = s2.copy(), s2.copy()
                        a.assume(cc)
                        n = len(s2.pc)
                        a = go(gens[1:], f2, a)
                        m = self.merge(cc, a, b)
                        m.pc = s2.pc[:n]
                        return m
                return go(gens[1:], f2, s2)
            return self.loop(e, f, s, it, lambda x, f2, s2: self.assign(g.target, x, f2, s2), body)
        fr.loops.append({"breaks": [], "conts": []})
        r = go(e.generators, fr, st)
        fr.loops.pop()
        if r is None:
            raise Dead()
        if r is not st:
            st.set(r)
        res = st.env[nm]
        st.env = {k: v for k, v in st.env.items() if k in saved}
        for k in saved:
            st.env.setdefault(k, saved[k])
        # comprehension targets do not leak
        for g in e.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    if x.id in saved:
                        st.env[x.id] = saved[x.id]
                    else:
                        st.env.pop(x.id, None)
        return res

    def e_ListComp(self, e, fr, st):
        return self.comp(e, fr, st, e.elt)

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, e, fr, st):
        ks = self.comp(e, fr, st, e.key)
        vs = self.comp(e, fr, st, e.value)
        rk, rv = st.heap[ks.id], st.heap[vs.id]
        if rk.base is None and rv.base is None:
            return self.mkdict(st, {self.deref(st, k): v for k, v in zip(rk.items, rv.items)})
        return XObj(self.unk("dict comprehension"))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, st)
            self.curnode = t
            self.setattr(st, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr, st)
            k = self.index_val(t.slice, fr, st)
            self.curnode = t
            self.setitem(st, o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Uni):
                v = self.concretise(st, v)
            if isinstance(v, Tup) and len(v.items) == len(t.elts):
                vals = v.items
            elif isinstance(v, Lst) and st.heap[v.id].base is None and len(st.heap[v.id].items) == len(t.elts):
                vals = st.heap[v.id].items
            else:
                tt = self.deref(st, v)
                vals = [self.wrap(st, index(tt, num(k)), None) for k in range(len(t.elts))]
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st)

    def getitem(self, st, o, k):
        return self.np.getitem(self, st, o, k)

    def setitem(self, st, o, k, v):
        return self.np.setitem(self, st, o, k, v)

    def mutate_unknown(self, st, o):
        if isinstance(o, Ref):
            self.cell_write(st, o.id, self.unk("unknown mutation"))
        elif isinstance(o, Lst):
            st.heap[o.id] = LRec(self.unk("unknown list mutation"), (), st.heap[o.id].kind)

    # ------------------------------------------------------------ attributes
    def fmap(self, st, cls, f):
        k = ("F", cls.name, f)
        if k not in st.heap:
            st.heap[k] = self.fsym(cls.name, f)
        return k

    def fsym(self, cls, f):
        """the initial map from objects of a class to one of their fields"""
        fn = self.fieldshape.get((cls, f))
        t = sym("F0:%s.%s" % (cls, f) + (":%s" % self.tag if self.tag else ""), kind="fmap")
        if fn is not None:
            META[t] = {"kind": "fmap", "field": fn}
        return t

    def sobj_get(self, st, o, f):
        k = self.fmap(st, o.cls, f)
        t = index(st.heap[k], o.id)
        kind = self.ftypes.get((o.cls.name, f))
        if t is NONE:
            return t
        if kind is None and t.op == "index" and shape(t) is None:
            kind = None
        if kind == ("arr",) or (kind is None and not (is_scalar(t) or t.op == "const")):
            # arrays stored in symbolic objects: views of the field map
            i = self.fresh()
            st.heap[i] = Cell(t)
            self.fieldcells[i] = (k, o.id)
            self.fieldalias[i] = [(k, o.id)]
            return Ref(i)
        if kind and kind[0] == "list":
            l = self.mklist(st, (), t, kind[1])
            self.fieldcells[l.id] = (k, o.id)
            return l
        return self.wrap(st, t, kind)

    def getattr(self, st, o, f):
        if isinstance(o, Uni):
            o = self.concretise(st, o)
        if isinstance(o, Uni):
            a, b = o.a, o.b
            da = a is NONE
            db = b is NONE
            if da and db:
                raise Dead()
            if da:
                return self.getattr(st, b, f)
            if db:
                return self.getattr(st, a, f)
            va, vb = self.getattr(st, a, f), self.getattr(st, b, f)
            if isinstance(va, (Fn, Meth)):
                return Uni(o.c, va, vb)
            return self.merge_val(st, o.c, va, vb, st, st)
        if isinstance(o, Obj) and o.adt is None:
            rec = st.heap[o.id]
            if f in rec:
                v = rec[f]
                if isinstance(v, Uni):
                    v = self.concretise(st, v)
                return v
            if o.cls is not None:
                r = self.class_attr(st, o, o.cls, f)
                if r is not None:
                    return r
            if f == "__class__":
                return Cls(o.cls)
            if f == "__dict__":
                return XObj(self.unk("__dict__"))
            if o.cls is not None:
                self.event(st, "noattr", cls=o.cls, attr=f)
            return XObj(self.unk("missing attribute %s.%s" % (getattr(o.cls, "name", "?"), f)))
        if isinstance(o, SObj):
            r = self.class_attr(st, o, o.cls, f)
            if r is not None:
                return r
            if not self.assigned_attr(o.cls, f):
                self.event(st, "noattr", cls=o.cls, attr=f)
            return self.sobj_get(st, o, f)
        if isinstance(o, Super):
            r = o.cls
            found = o.obj.cls.find(f, after=o.cls) if isinstance(o.obj, (Obj, SObj)) and o.obj.cls else None
            if found:
                owner, kind, thing = found
                return self.bind_found(st, o.obj, owner, kind, thing)
            if f in ("__init__", "__init_subclass__"):
                return Ext("object.__init__")
            return XObj(self.unk("missing super attribute " + f))
        if isinstance(o, Cls):
            found = o.cls.find(f)
            if found:
                owner, kind, thing = found
                if kind == "method":
                    return Fn(thing, None, None, None)
                if kind == "attr":
                    fr = Frame(FuncInfo(owner.node, owner.mod, owner, owner.name), owner.mod, owner)
                    return self.ev(thing, fr, st)
            if f == "__name__":
                return const(o.cls.name)
            return XObj(self.unk("class attribute " + f))
        if isinstance(o, Mod):
            b = self.prog.lookup(o.m, f)
            if b is not None:
                return self.from_binding(b, st, o.m)
            sub_ = o.m.name + "." + f
            if sub_ in self.prog.mods:
                return Mod(self.prog.mods[sub_])
            return XObj(self.unk("missing module attribute " + f))
        if o is NONE:
            raise Dead()
        return self.np.getattr_(self, st, o, f)

    def class_attr(self, st, o, cls, f):
        found = cls.find(f)
        if not found:
            return None
        owner, kind, thing = found
        return self.bind_found(st, o, owner, kind, thing)

    def bind_found(self, st, o, owner, kind, thing):
        if kind == "method":
            if thing.kind == "static":
                return Fn(thing)
            if thing.kind == "class":
                return Fn(thing, Cls(o.cls))
            return Fn(thing, o)
        if kind == "prop":
            if "get" not in thing:
                return XObj(self.unk("write only property"))
            return self.call_fn(st, Fn(thing["get"], o), [], {})
        fr = Frame(FuncInfo(owner.node, owner.mod, owner, owner.name), owner.mod, owner)
        return self.ev(thing, fr, st)

    def setattr(self, st, o, f, v, delete=False):
        if isinstance(o, Uni):
            o = self.concretise(st, o)
        if isinstance(o, Uni):
            if o.a is NONE:
                o = o.b
            elif o.b is NONE:
                o = o.a
            else:
                for c, x in ((o.c, o.a), (bnot(o.c), o.b)):
                    old = self.getattr(st, x, f)
                    self.setattr(st, x, f, self.merge_val(st, c, v, old, st, st))
                return
        if isinstance(o, Obj) and o.adt is None:
            if o.cls is not None and not delete:
                found = o.cls.find(f)
                if found and found[1] == "prop":
                    if "set" in found[2]:
                        self.call_fn(st, Fn(found[2]["set"], o), [v], {})
                        return
            rec = dict(st.heap[o.id])
            if delete:
                rec.pop(f, None)
            else:
                rec[f] = v
            st.heap[o.id] = rec
            if not delete:
                self.event(st, "setattr", obj=o, attr=f)
            return
        if isinstance(o, SObj):
            k = self.fmap(st, o.cls, f)
            kd = self.kind_of(st, v)
            if (o.cls.name, f) not in self.ftypes and kd[0] not in ("num", "none", "other"):
                self.ftypes[(o.cls.name, f)] = kd
            st.heap[k] = store(st.heap[k], o.id, self.deref(st, v))
            if isinstance(v, Ref):
                self.fieldalias.setdefault(v.id, []).append((k, o.id))
            return
        if isinstance(o, (DElem, DVal)) or isinstance(o, Obj) and o.adt:
            self.np.adt_setattr(self, st, o, f, v)
            return
        if isinstance(o, Cls):
            self.event(st, "classattr", cls=o.cls, attr=f)
            return
        if isinstance(o, XObj):
            self.event(st, "extset", attr=f, recv=o.t, val=self.deref(st, v))

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            slf = None
            fr0 = fr
            first = fr.info.node.args.args[0].arg if getattr(fr.info.node, "args", None) and fr.info.node.args.args else None
            slf = st.env.get(first)
            if not e.args:
                return Super(fr.cls, slf)
            c = self.ev(e.args[0], fr, st)
            o = self.ev(e.args[1], fr, st) if len(e.args) > 1 else slf
            if isinstance(c, Cls):
                return Super(c.cls, o)
            return Super(fr.cls, o)
        f = self.ev(e.func, fr, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                d = self.iter_of(st, self.ev(a.value, fr, st))
                if d[0] == "conc":
                    args.extend(d[1])
                else:
                    args.append(XObj(self.unk("star argument")))
            else:
                args.append(self.ev(a, fr, st))
        for k in e.keywords:
            v = self.ev(k.value, fr, st)
            if k.arg is None:
                if isinstance(v, Dct):
                    for kk, vv in st.heap[v.id].items.items():
                        if kk.op == "const":
                            kw[kk.args[1]] = vv
            else:
                kw[k.arg] = v
        self.curnode = e
        old = self.curfr if hasattr(self, "curfr") else None
        self.curfr = fr
        try:
            return self.call(st, f, args, kw, node=e)
        finally:
            self.curfr = old

    def call(self, st, f, args, kw, node=None):
        self.calls_seen += 1
        if isinstance(f, Uni):
            f = self.concretise(st, f)
        if isinstance(f, Uni):
            n = len(st.pc)
            a, b = st.copy(), st.copy()
            a.assume(f.c)
            b.assume(bnot(f.c))
            va = vb = None
            try:
                va = self.call(a, f.a, args, kw, node)
            except Dead:
                a = None
            try:
                vb = self.call(b, f.b, args, kw, node)
            except Dead:
                b = None
            if a is None and b is None:
                raise Dead()
            if a is None or b is None:
                s, v = (b, vb) if a is None else (a, va)
                s.pc = s.pc[:n]
                st.set(s)
                return v
            m = self.merge(f.c, a, b)
            v = self.merge_val(m, f.c, va, vb, a, b)
            m.pc = m.pc[:n]
            st.set(m)
            return v
        if isinstance(f, Fn):
            return self.call_fn(st, f, args, kw, node)
        if isinstance(f, Cls):
            return self.instantiate(st, f.cls, args, kw, node)
        if isinstance(f, (Ext, Meth)):
            return self.np.call_ext(self, st, f, args, kw, node)
        if isinstance(f, Obj) and f.adt is None and f.cls is not None and f.cls.method("__call__"):
            return self.call_fn(st, Fn(f.cls.method("__call__"), f), args, kw, node)
        if isinstance(f, XObj):
            return self.np.call_xobj(self, st, f, args, kw, node)
        if isinstance(f, T) and META.get(f, {}).get("kind") == "fn":
            h = META[f]["fn"]
            return h(self, st, args, kw)
        if f is NONE:
            raise Dead()
        return XObj(self.unk("call of unknown value"))

    def instantiate(self, st, cls, args, kw, node=None):
        for k in cls.mro():
            if k.name in self.adt_classes:
                r = self.adt_classes[k.name](self, st, cls, args, kw)
                if r is not NotImplemented:
                    return r
        if self.activeloops:
            self.loopclasses.add(cls.name)
        if cls.name in self.symclasses:
            o = SObj(cls, mk("newobj", mk("key", "%s~%d" % (cls.name, self.fresh()), *[i for _l, i in self.activeloops])))
        else:
            o = self.alloc(st, {}, cls)
        self.event(st, "new", cls=cls, obj=o)
        init = cls.find("__init__")
        if init and init[1] == "method":
            self.call_fn(st, Fn(init[2], o), args, kw, node)
        return o

    def bind_args(self, st, f, args, kw):
        """-> env or None when the call does not fit the signature"""
        a = f.info.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if f.self_ is not None:
            vals = [f.self_] + vals
        env = {}
        for n, v in zip(pos, vals):
            env[n] = v
        extra = vals[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = Tup(extra)
        elif extra:
            return None
        rest = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = self.mkdict(st, {const(k): v for k, v in rest.items()})
        elif rest:
            return None
        defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        for n in list(pos) + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if n in defs:
                    fr = Frame(f.info, f.info.mod, f.info.cls)
                    cm = self.curmod
                    env[n] = self.ev(defs[n], fr, st)
                    self.curmod = cm
                else:
                    return None
        return env

    def call_fn(self, st, f, args, kw, node=None):
        info = f.info
        h = self.hooks.get(info.qual)
        if h is not None:
            r = h(self, f, args, kw, st)
            if r is not NotImplemented:
                return r
        depth = sum(1 for c in self.callstack if c is info)
        if depth >= 1 and depth < 2:
            args, kw = self.widen_args(st, f, args, kw)
        if depth >= 2 or len(self.callstack) > self.depthlimit:
            raise Dead()      # deeper recursion is covered by the widened activation
        env = self.bind_args(st, f, args, kw)
        if env is None:
            self.event(st, "badcall", func=info)
            return XObj(self.unk("call does not fit " + info.qual))
        self.functions_seen.add(info.qual)
        self.event(st, "call", func=info, env=dict(env))
        fr = Frame(info, info.mod, info.cls, (f.env, f.frame) if f.env is not None else None)
        s = State(env, st.heap, st.pc, st.facts)
        s.heap = dict(st.heap)
        npc = len(st.pc)
        om, on = self.curmod, self.curnode
        self.curmod = info.mod
        self.callstack.append(info)
        so = self.sites
        self.sites = list(self.sites) + [type("S", (), {"_site": "%s:%s" % (getattr(node, "lineno", ""), getattr(node, "col_offset", ""))})()]
        try:
            end = self.block(info.node.body, fr, s)
        finally:
            self.callstack.pop()
            self.curmod, self.curnode = om, on
            self.sites = so
        outs = list(fr.returns)
        if end is not None:
            outs.append((end, NONE))
        if not outs:
            raise Dead()
        for o, _ in outs:
            o.env = {}
        if len(outs) == 1:
            o, v = outs[0]
            st.heap = o.heap
            st.facts = o.facts
        else:
            o, v = self.join_all(outs, npc)
            st.heap = o.heap
            st.facts = o.facts
        return v

    def widen_args(self, st, f, args, kw):
        """recursive call: replace changing arguments by unknown values of their kind"""
        env = self.bind_args(st, f, args, kw)
        if env is None:
            return args, kw
        def w(v):
            k = self.kind_of(st, v)
            if isinstance(v, Lst):
                ek = self.elem_kind(st, v)
                m = sym("rec%d" % self.fresh())
                META[m] = {"shape": (mk("len", m),)}
                self.promote_items(st, v)
                return self.mklist(st, (), m, ek)
            if k[0] == "num" and isinstance(v, T) and v is not NONE and v.op != "const":
                return v
            return v
        out = []
        for a in args:
            out.append(w(a))
        return out, {k: w(v) for k, v in kw.items()}

    def promote_items(self, st, l):
        pass

    # ------------------------------------------------------------ entry helpers
    def method(self, st, obj, name, args=(), kw=None):
        f = self.getattr(st, obj, name)
        return self.call(st, f, list(args), dict(kw or {}))

    def resolve(self, t, upto=None):
        """replace loop carried symbols by their closed forms (at the iteration indices of the enclosing loops)"""
        for _ in range(6):
            m = {}
            subs = subterms(t)
            for li in self.loopinfos:
                for mu, loc in li.musyms.items():
                    if mu in subs:
                        m[mu] = li.sols[loc](li.idx)
            if not m:
                return t
            t = subst(t, m)
        return t


BINDERS = {"collect", "stack", "lsum", "fill"}
_CAN = {}


def canon(t):
    """alpha-rename bound loop indices"""
    r = _CAN.get(t)
    if r is not None:
        return r

    def lvl(x):
        n = 0
        for s in subterms(x):
            if s.op == "sym" and str(s.args[0]).startswith("$b"):
                n = max(n, int(str(s.args[0])[2:]) + 1)
        return n

    def f(x):
        if x.op in ("collect", "stack", "lsum"):
            tr, i, b = x.args
            tr, b = mapterm(tr, f), mapterm(b, f)
            j = sym("$b%d" % lvl(b), kind="num", int=True, nonneg=True, rank=0)
            return mk(x.op, tr, j, subst(b, {i: j}))
        if x.op == "fill":
            base, loops, key, v = x.args
            base, v = mapterm(base, f), mapterm(v, f)
            key = tuple(mapterm(k, f) for k in key)
            n = max([lvl(v)] + [lvl(k) for k in key])
            m = {}
            nl = []
            for q in range(0, len(loops), 2):
                j = sym("$b%d" % n, kind="num", int=True, nonneg=True, rank=0)
                n += 1
                m[loops[q]] = j
                nl += [j, mapterm(loops[q + 1], f)]
            return mk("fill", base, tuple(nl), tuple(subst(k, m) for k in key), subst(v, m))
        return None
    r = _CAN[t] = mapterm(t, f)
    return r


def maybe_none(t):
    """None is among the values t is chosen from"""
    if t is None or not isinstance(t, T):
        return False
    if t.op == "ite":
        return maybe_none(t.args[1]) or maybe_none(t.args[2])
    return t is NONE or META.get(t, {}).get("maybe", False)


def isnone_of(t):
    from . import npsem
    return npsem.isnone_t(t)
