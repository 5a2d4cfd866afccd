"""What numpy, scipy, the standard library and the built-ins mean to the interpreter, and the abstract distributions."""
import ast
from fractions import Fraction
from .terms import *
from . import terms as tm
from . import arr
from .arr import shape, rank, length, is_bool, is_scalar, index, concat, single, sum_, full, reshape, npts
from .vals import *

BUILTINS = {"len", "range", "enumerate", "zip", "reversed", "sum", "min", "max", "abs", "int", "float", "bool", "str",
            "list", "tuple", "dict", "set", "frozenset", "print", "isinstance", "issubclass", "hasattr", "callable",
            "getattr", "setattr", "any", "all", "sorted", "map", "filter", "type", "round", "pow", "divmod", "eval",
            "exec", "open", "repr", "format", "id", "iter", "next", "object", "Exception", "ValueError", "TypeError",
            "KeyError", "NotImplementedError", "RuntimeError", "IndexError", "AttributeError", "TimeoutError",
            "ZeroDivisionError", "StopIteration", "slice", "property", "vars", "locals", "globals", "dir", "hash",
            "True", "False", "None", "NotImplemented", "Warning", "DeprecationWarning", "UserWarning", "OSError",
            "IOError", "FileNotFoundError", "AssertionError", "ArithmeticError", "OverflowError", "__name__", "__file__",
            "chr", "ord", "input", "complex", "bytes", "memoryview", "staticmethod", "classmethod", "super"}
TRUNC = {"numpy.floor": "floor", "numpy.ceil": "ceil"}


# ------------------------------------------------------------------ strings
def strcat(*parts):
    out = []
    for p in parts:
        ps = p.args if p.op == "strcat" else (p,)
        for x in ps:
            if x.op == "const" and isinstance(x.args[1], str):
                if x.args[1] == "":
                    continue
                if out and out[-1].op == "const" and isinstance(out[-1].args[1], str):
                    out[-1] = const(out[-1].args[1] + x.args[1])
                    continue
            out.append(x)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0]
    return mk("strcat", *out)


def fmt1(spec, x):
    """text of x under a conversion"""
    if x.op == "const" and isinstance(x.args[1], str) and spec in ("%s", "{:}", "{}"):
        return x
    if x.op in ("strcat", "fmt") and spec in ("%s", "{:}", "{}"):
        return x
    if x.op == "ite" and spec in ("%s", "{:}", "{}") and all(a.op in ("const", "strcat", "fmt") for a in x.args[1:]):
        return ite(x.args[0], fmt1(spec, x.args[1]), fmt1(spec, x.args[2]))
    return mk("fmt", x, norm_spec(spec))


def norm_spec(s):
    """whether the text is padded / rounded is immaterial to most rules; keep the conversion"""
    return s


def is_strterm(t):
    return t.op in ("strcat", "fmt", "strjoin") or (t.op == "const" and isinstance(t.args[1], str)) or \
        META.get(t, {}).get("kind") == "str" or (t.op == "ite" and is_strterm(t.args[1]) and is_strterm(t.args[2]))


def percent(it, st, f, v):
    """'...' % values"""
    import re
    if not (f.op == "const" and isinstance(f.args[1], str)):
        return mk("fmt", it.deref(st, v), "dynamic")
    vals = list(v.items) if isinstance(v, Tup) else [v]
    if isinstance(v, Dct):
        return mk("fmt", it.deref(st, v), f.args[1])
    parts = []
    pos = 0
    k = 0
    for m in re.finditer(r"%%|%([-+ 0#]*)(\d+|\*)?(\.\d+)?([diouxXeEfFgGcrsa])", f.args[1]):
        parts.append(const(f.args[1][pos:m.start()]))
        pos = m.end()
        if m.group(0) == "%%":
            parts.append(const("%"))
            continue
        if k < len(vals):
            parts.append(fmt1(m.group(0), it.deref(st, vals[k])))
        else:
            it.event(st, "badformat", fmt=f.args[1])
        k += 1
    parts.append(const(f.args[1][pos:]))
    if k != len(vals):
        it.event(st, "badformat", fmt=f.args[1])
    return strcat(*parts)


def dotformat(it, st, f, args, kw):
    import string
    if not (f.op == "const" and isinstance(f.args[1], str)):
        return mk("fmt", f, "dynamic")
    parts = []
    k = 0
    for lit, field, spec, conv in string.Formatter().parse(f.args[1]):
        if lit:
            parts.append(const(lit))
        if field is None:
            continue
        if field == "":
            v = args[k] if k < len(args) else None
            k += 1
        elif field.isdigit():
            v = args[int(field)] if int(field) < len(args) else None
        else:
            v = kw.get(field)
        if v is None:
            return mk("fmt", f, "dynamic")
        parts.append(fmt1("{%s:%s}" % (conv or "", spec) if (conv or spec) else "%s", it.deref(st, v)))
    return strcat(*parts)


# ------------------------------------------------------------------ operators
def binop(it, st, op, a, b):
    if isinstance(a, Uni):
        a = it.concretise(st, a)
    if isinstance(b, Uni):
        b = it.concretise(st, b)
    if isinstance(a, Uni) and (a.a is NONE or a.b is NONE):
        a = a.b if a.a is NONE else a.a
    if isinstance(b, Uni) and (b.a is NONE or b.b is NONE):
        b = b.b if b.a is NONE else b.a
    o = type(op).__name__
    if o == "Add":
        if isinstance(a, Lst) and isinstance(b, (Lst, Tup)):
            ra = st.heap[a.id]
            rb = st.heap[b.id] if isinstance(b, Lst) else LRec(None, b.items)
            if rb.base is None:
                return it.mklist(st, tuple(ra.items) + tuple(rb.items), ra.base, ra.kind if ra.base is not None else None)
            return it.mklist(st, (), concat(it.list_term(st, a), it.deref(st, b)), it.elem_kind(st, a))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
    if o == "Mult":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Lst) and isinstance(y, T):
                r = st.heap[x.id]
                if is_num(y) and r.base is None and len(r.items) * y.args[0] <= 64:
                    return it.mklist(st, tuple(r.items) * int(y.args[0]), None, r.kind)
                if r.base is None and len(r.items) == 1 and isinstance(r.items[0], T):
                    return it.mklist(st, (), full((y,), r.items[0]), ("num",))
                return it.mklist(st, (), it.unk("list repetition"), r.kind)
            if isinstance(x, Tup) and isinstance(y, T) and is_num(y):
                return Tup(x.items * int(y.args[0]))
    ta, tb = it.deref(st, a), None
    if o == "Mod" and is_strterm(ta):
        return percent(it, st, ta, b)
    tb = it.deref(st, b)
    if o == "Add" and (is_strterm(ta) or is_strterm(tb)):
        return strcat(ta, tb)
    return it.box(st, arith(o, ta, tb))


def arith(o, a, b):
    if o == "Add":
        return add(a, b)
    if o == "Sub":
        return sub(a, b)
    if o == "Mult":
        return mul(a, b)
    if o == "Div":
        return div(a, b)
    if o == "FloorDiv":
        return floor(div(a, b))
    if o == "Mod":
        return sub(a, mul(b, floor(div(a, b))))
    if o == "Pow":
        return power(a, b)
    if o == "MatMult":
        return arr.matmul(a, b)
    if o == "BitAnd":
        return band(a, b) if is_bool(a) and is_bool(b) else mk("bitand", a, b)
    if o == "BitOr":
        return bor(a, b) if is_bool(a) and is_bool(b) else mk("bitor", a, b)
    if o == "BitXor" and is_bool(a) and is_bool(b):
        return bor(band(a, bnot(b)), band(bnot(a), b))
    return mk("op" + o, a, b)


def compare(it, st, op, a, b):
    o = type(op).__name__
    if o in ("Is", "IsNot"):
        r = isop(it, st, a, b)
        return bnot(r) if o == "IsNot" else r
    if o in ("In", "NotIn"):
        r = inop(it, st, a, b)
        return bnot(r) if o == "NotIn" else r
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isinstance(x, Uni):
            x2 = it.concretise(st, x)
            if isinstance(x2, Uni):
                if (x2.a is NONE or x2.b is NONE) and o not in ("Eq", "NotEq"):
                    x2 = x2.b if x2.a is NONE else x2.a
                else:
                    f = (lambda p, q: compare(it, st, op, p, q)) if not sw else (lambda p, q: compare(it, st, op, q, p))
                    return ite(x2.c, it.deref(st, f(x2.a, y)), it.deref(st, f(x2.b, y)))
            return compare(it, st, op, x2, y) if not sw else compare(it, st, op, y, x2)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            r = FALSE
        else:
            r = band(*[it.deref(st, compare(it, st, ast.Eq(), x, y)) for x, y in zip(a.items, b.items)])
        return bnot(r) if o == "NotEq" else r
    if isinstance(a, XObj) and isinstance(b, T) and b.op == "const":
        return mk("truthy", mk("cmp" + o, a.t, b))
    ta, tb = it.deref(st, a), it.deref(st, b)
    if o == "Eq" or o == "NotEq":
        if is_bool(ta) and is_bool(tb) and is_scalar(ta) and is_scalar(tb):
            r = ite(ta, tb, bnot(tb))
        else:
            r = eq(ta, tb)
        return it.box(st, bnot(r) if o == "NotEq" else r)
    if o == "Gt":
        r = gt0(sub(ta, tb))
    elif o == "Lt":
        r = gt0(sub(tb, ta))
    elif o == "GtE" or o == "LtE":
        r = ge0(sub(ta, tb) if o == "GtE" else sub(tb, ta))
        for t in (ta, tb):
            # what need not be a number is on neither side
            if any(x.op == "sym" and META.get(x, {}).get("nan") for x in subterms(t)):
                r = band(r, bnot(isnan(t)))
    else:
        r = mk("truthy", mk("cmp" + o, ta, tb))
    return it.box(st, r)


def isnone(it, st, a):
    if isinstance(a, Uni):
        return ite(a.c, isnone(it, st, a.a), isnone(it, st, a.b))
    if not isinstance(a, T):
        if isinstance(a, XObj):
            return mk("isnone", a.t)
        if isinstance(a, Ref):
            # a field of a symbolic object or what a loop carries: None only where it was stored
            def none(t):
                if t.op == "ite":
                    return ite(t.args[0], none(t.args[1]), none(t.args[2]))
                return TRUE if t is NONE else mk("isnone", t) if META.get(t, {}).get("maybe") else FALSE
            return none(it.deref(st, a))
        return FALSE
    return isnone_t(a)


def isnone_t(a):
    if a is NONE:
        return TRUE
    if a.op == "ite":
        return ite(a.args[0], isnone_t(a.args[1]), isnone_t(a.args[2]))
    if META.get(a, {}).get("maybe"):
        return mk("isnone", a)
    if a.op in ("num", "const", "true", "false", "poly", "exp", "log", "len", "concat", "empty", "collect", "dist", "draw",
                "logp", "clock", "full", "newobj", "store", "rand01", "rand", "stack"):
        return FALSE
    if a.op == "sym" and META.get(a, {}).get("kind") in ("num", "bool", "str", "dist", "fn"):
        return FALSE
    return mk("isnone", a)


tm.REBUILD["isnone"] = lambda a: isnone_t(a)


def isop(it, st, a, b):
    if b is NONE:
        return isnone(it, st, a)
    if a is NONE:
        return isnone(it, st, b)
    if isinstance(a, T) and isinstance(b, T) and (a.op in ("true", "false") or b.op in ("true", "false")):
        if is_bool(a) and is_bool(b):
            return ite(a, b, bnot(b))
    if isinstance(a, (Obj, Lst, Ref, Dct)) and type(a) is type(b):
        return TRUE if a.id == b.id else FALSE
    if isinstance(a, SObj) and isinstance(b, SObj):
        return eqid(a.id, b.id)
    if isinstance(a, Cls) and isinstance(b, Cls):
        return TRUE if a.cls is b.cls else FALSE
    return eq(it.deref(st, a), it.deref(st, b))


def eqid(a, b):
    return TRUE if a is b else mk("eq", *sorted((a, b), key=lambda t: t.id))


def inop(it, st, a, b):
    if isinstance(b, Uni):
        b = it.concretise(st, b)
    if isinstance(b, Uni):
        return ite(b.c, inop(it, st, a, b.a), inop(it, st, a, b.b))
    if isinstance(b, Meth) and b.name == "keys":
        b = b.recv
    if isinstance(b, Seq) and b.kind == "dictkeys":
        b = b.parts[0]
    if isinstance(b, Dct):
        k = it.deref(st, a)
        r = st.heap[b.id]
        if k in r.items:
            return TRUE
        if r.open and k.op == "const":
            return sym("has:%s:%s" % (r.open, k.args[1]), kind="bool", rank=0)
        return FALSE if k.op == "const" else mk("in", k, mk("dictref", b.id))
    if isinstance(b, (Tup, Lst)):
        items = b.items if isinstance(b, Tup) else (st.heap[b.id].items if st.heap[b.id].base is None else None)
        if items is not None:
            k = it.deref(st, a)
            return bor(*[it.deref(st, compare(it, st, ast.Eq(), a, x)) for x in items]) if items else FALSE
    ta, tb = it.deref(st, a), it.deref(st, b)
    if ta.op == "const" and tb.op == "const" and isinstance(ta.args[1], str) and isinstance(tb.args[1], str):
        return TRUE if ta.args[1] in tb.args[1] else FALSE
    return mk("in", ta, tb)


# ------------------------------------------------------------------ subscripts
def is_full_slice(k):
    return isinstance(k, Slc) and k.lo in (NONE, ZERO) and k.hi is NONE and k.st in (NONE, ONE)


def getitem(it, st, o, k):
    if isinstance(o, Uni):
        o = it.concretise(st, o)
    if isinstance(k, Uni):
        k = it.concretise(st, k)
    if isinstance(o, Uni):
        if o.a is NONE:
            return getitem(it, st, o.b, k)
        if o.b is NONE:
            return getitem(it, st, o.a, k)
        return it.merge_val(st, o.c, getitem(it, st, o.a, k), getitem(it, st, o.b, k), st, st)
    if isinstance(o, Tup):
        if isinstance(k, T) and is_num(k) and -len(o.items) <= k.args[0] < len(o.items):
            return o.items[int(k.args[0])]
        if isinstance(k, Slc) and all(x is NONE or is_num(x) for x in (k.lo, k.hi, k.st)):
            f = lambda x: None if x is NONE else int(x.args[0])
            return Tup(o.items[f(k.lo):f(k.hi):f(k.st)])
        return it.wrap(st, mk("index", it.deref(st, o), it.deref(st, k) if not isinstance(k, Slc) else NONE), None)
    if isinstance(o, Dct):
        kk = it.deref(st, k)
        r = st.heap[o.id]
        if kk in r.items:
            v = r.items[kk]
            if isinstance(v, Uni):
                v = it.concretise(st, v)
            return v
        if r.open and kk.op == "const":
            hook = getattr(it, "param_hook", None)
            v = hook(it, st, r.open, kk.args[1]) if hook else None
            if v is None:
                v = sym("P:%s:%s" % (r.open, kk.args[1]))
                v = it.box(st, v)
            it.event(st, "param", key=kk.args[1], dct=r.open)
            items = dict(r.items)
            items[kk] = v
            st.heap[o.id] = DRec(items, r.open)
            return v
        if kk.op == "const":
            it.event(st, "keyerror", key=kk.args[1])
            raise Dead()
        if r.items and all(isinstance(x, T) for x in r.items.values()) and not r.open:
            return mk("index", mk("dictval", *[y for x in r.items.items() for y in x]), kk)
        return XObj(it.unk("dictionary lookup"))
    if isinstance(o, Lst):
        r = st.heap[o.id]
        if isinstance(k, T):
            if is_num(k):
                n = int(k.args[0])
                if r.base is None and -len(r.items) <= n < len(r.items):
                    return r.items[n]
                if n < 0 and -n <= len(r.items):
                    return r.items[n]
            ek = it.elem_kind(st, o)
            if ek == ("dist",):
                return DElem(o, k)
            v = index(it.list_term(st, o), k)
            return it.wrap(st, v, ek)
        if isinstance(k, Slc):
            if r.base is None and all(x is NONE or is_num(x) for x in (k.lo, k.hi, k.st)):
                f = lambda x: None if x is NONE else int(x.args[0])
                return it.mklist(st, r.items[f(k.lo):f(k.hi):f(k.st)], None, r.kind)
            return it.mklist(st, (), arr.slice_(it.list_term(st, o), k.lo, k.hi, k.st), it.elem_kind(st, o))
        tk = it.deref(st, k)
        return it.wrap(st, index(it.list_term(st, o), tk), it.elem_kind(st, o))
    if isinstance(o, Ref):
        return arr_get(it, st, o, k)
    if isinstance(o, Seq):
        r = it.iter_of(st, o)
        if isinstance(k, T):
            if r[0] == "conc" and is_num(k):
                return r[1][int(k.args[0])]
            if r[0] == "sym":
                return r[2](k, st)
    if isinstance(o, XObj):
        return XObj(mk("ext", "getitem", o.t, it.deref(st, k) if not isinstance(k, (Slc, Tup)) else NONE))
    t = it.deref(st, o)
    if isinstance(k, Slc):
        return it.box(st, arr.slice_(t, k.lo, k.hi, k.st))
    if isinstance(k, Tup):
        i = it.fresh()
        st.heap[i] = Cell(t)
        return arr_get(it, st, Ref(i), k)
    if is_strterm(t):
        return mk("fmt", t, "chars")
    return it.box(st, index(t, it.deref(st, k)))


def arr_get(it, st, o, k):
    t = st.heap[o.id].t
    if isinstance(k, T):
        if k is NONE:
            s = shape(t)
            return view(it, st, o, "reshape", (ONE,) + s) if s is not None else it.box(st, single(t))
        if k.op == "const":
            return o
        r = index(t, k)
        if is_bool(k):
            return it.box(st, r)
        if rank(t) == 1 or is_scalar(r):
            return r
        return it.box(st, r, ((TRUE, o.id, "index", k),))
    if isinstance(k, Slc):
        if is_full_slice(k):
            return view(it, st, o, "slice", (NONE, NONE, NONE))
        return view(it, st, o, "slice", (k.lo, k.hi, k.st))
    if isinstance(k, Tup):
        items = [x for x in k.items]
        # ellipsis at the end / start
        ell = [n for n, x in enumerate(items) if isinstance(x, T) and x.op == "const" and x.args[0] == "ellipsis"]
        s = shape(t)
        if ell and s is not None:
            n = ell[0]
            rest = len(s) - (len([x for x in items if x is not NONE]) - 1)
            items = items[:n] + [Slc(NONE, NONE, NONE)] * rest + items[n + 1:]
        if any(x is NONE for x in items) and s is not None and all(x is NONE or is_full_slice(x) for x in items):
            dims, q = [], 0
            for x in items:
                if x is NONE:
                    dims.append(ONE)
                else:
                    dims.append(s[q])
                    q += 1
            dims += list(s[q:])
            return view(it, st, o, "reshape", tuple(dims))
        while len(items) > 1 and is_full_slice(items[-1]):
            items.pop()
        if len(items) == 1:
            return arr_get(it, st, o, items[0])
        if len(items) == 2:
            a, b = items
            if is_full_slice(a) and isinstance(b, T):
                return view(it, st, o, "col", b)
            if isinstance(a, T) and isinstance(b, T):
                if is_scalar(a) and is_scalar(b) and not is_bool(a):
                    r = index(index(t, a), b)
                    return r if is_scalar(r) else it.box(st, r)
            if isinstance(a, T) and is_scalar(a) and isinstance(b, (Slc, Ref)):
                row = arr_get(it, st, o, a)
                return arr_get(it, st, row, b) if isinstance(row, Ref) else row
            if isinstance(a, Ref) and isinstance(b, T) and is_scalar(b):
                return it.box(st, index(arr.col(t, b), st.heap[a.id].t))
        if s is not None and len(items) <= len(s) and all(
                isinstance(x, Slc) or isinstance(x, T) and is_scalar(x) and not is_bool(x) and x is not NONE for x in items):
            return basic_index(it, st, o, items, len(s))
        return it.box(st, mk("getitem", t, *[comp_term(it, st, x) for x in items]))
    tk = it.deref(st, k)
    return it.box(st, index(t, tk))


def basic_index(it, st, o, items, n):
    """slices and numbers on several axes, one axis at a time from the last"""
    for k in range(len(items) - 1, -1, -1):
        x = items[k]
        if is_full_slice(x):
            continue
        front = (k,) + tuple(i for i in range(n) if i != k)
        if k:
            o = view(it, st, o, "permute", front)
        o = arr_get(it, st, o, x)
        if not isinstance(x, Slc):
            n -= 1
        elif k:
            o = view(it, st, o, "permute", tuple(front.index(i) for i in range(n)))
    return o


def comp_term(it, st, x):
    if isinstance(x, Slc):
        return mk("slc", x.lo, x.hi, x.st)
    return it.deref(st, x)


def view(it, st, o, kind, ix):
    t = it._view_of(st.heap[o.id].t, kind, ix)
    return it.box(st, t, ((TRUE, o.id, kind, ix),))


def bcast(val, dims):
    """val broadcast to a region of the given dims"""
    if dims is None:
        return val
    s = shape(val)
    if s is None:
        return val
    if len(s) == len(dims) and all(x is y or equal(x, y) for x, y in zip(s, dims)):
        return val
    if len(s) < len(dims) and (s == () or all(x is y for x, y in zip(s, dims[len(dims) - len(s):]))):
        return full(dims, val)
    return val


def fitted(val, s, n):
    """what a[i] = val stores at n scalar indices of an array of this shape: one element arrays lose their axes, the rest is broadcast"""
    if s is None or len(s) < n:
        return val
    vs = shape(val)
    while vs is not None and len(vs) > len(s) - n and vs[0] is ONE:
        val, vs = index(val, ZERO), vs[1:]
    return bcast(val, s[n:])


def setitem(it, st, o, k, v):
    if isinstance(o, Uni):
        o = it.concretise(st, o)
    if isinstance(o, Uni):
        if o.a is NONE or o.b is NONE:
            return setitem(it, st, o.b if o.a is NONE else o.a, k, v)
        for c, x in ((o.c, o.a), (bnot(o.c), o.b)):
            a, b = st.copy(), st.copy()
            setitem(it, a, x, k, v)
            m = it.merge(c, a, b)
            m.pc, m.facts = st.pc, st.facts
            st.set(m)
        return
    if isinstance(o, Dct):
        kk = it.deref(st, k)
        r = st.heap[o.id]
        items = dict(r.items)
        items[kk] = v
        st.heap[o.id] = DRec(items, r.open)
        it.event(st, "dictset", dct=o.id, key=kk)
        return
    if isinstance(o, Lst):
        r = st.heap[o.id]
        if isinstance(k, T) and is_num(k) and r.base is None and -len(r.items) <= k.args[0] < len(r.items):
            items = list(r.items)
            items[int(k.args[0])] = v
            st.heap[o.id] = LRec(None, items, r.kind)
            return
        ek = it.elem_kind(st, o)
        if isinstance(k, Slc):
            st.heap[o.id] = LRec(it.unk("list slice store"), (), ek)
            return
        st.heap[o.id] = LRec(arr.store(it.list_term(st, o), it.deref(st, k), it.deref(st, v)), (), ek)
        return
    if isinstance(o, Ref):
        t = st.heap[o.id].t
        s = shape(t)
        val = it.deref(st, v)
        it.event(st, "inplace", cell=o.id)
        if isinstance(k, Tup):
            items = list(k.items)
            while len(items) > 1 and is_full_slice(items[-1]):
                items.pop()
            if len(items) == 1:
                k = items[0]
            elif len(items) == 2 and is_full_slice(items[0]) and isinstance(items[1], T):
                it.cell_write(st, o.id, mk("store", t, (mk("colon"), items[1]), val))
                return
            elif all(isinstance(x, T) and is_scalar(x) for x in items):
                it.cell_write(st, o.id, arr.store(t, tuple(items), fitted(val, s, len(items))))
                return
            else:
                it.cell_write(st, o.id, mk("storeat", t, mk("tuple", *[comp_term(it, st, x) for x in items]), val))
                return
        if isinstance(k, Slc):
            if is_full_slice(k):
                nt = bcast(val, s)
            else:
                nt = mk("storeslice", t, mk("slc", k.lo, k.hi, k.st), val)
            it.cell_write(st, o.id, nt)
            return
        tk = it.deref(st, k)
        if is_bool(tk):
            it.cell_write(st, o.id, arr.store(t, tk, val))
            return
        if s is not None and is_scalar(tk):
            val = fitted(val, s, 1)
        it.cell_write(st, o.id, arr.store(t, tk, val))
        return
    if isinstance(o, XObj):
        it.event(st, "extset", attr="[]")
        return
    it.event(st, "extset", attr="[]")


# ------------------------------------------------------------------ attributes
ADT_METHODS = {"sample", "prob", "log_prob", "set_moments", "set_weights", "support", "integral", "is_ready", "draw",
               "wait_for_ready", "condition", "marginal", "to_dict"}


def is_adt(o):
    return isinstance(o, (DElem, DVal)) or (isinstance(o, Obj) and o.adt == "dist")


def getattr_(it, st, o, f):
    if is_adt(o):
        if f in ADT_METHODS:
            return Meth(o, f)
        if f in ("models", "weights") and isinstance(o, Obj) and "models" in st.heap[o.id]:
            v = st.heap[o.id][f]
            return v
        d = it.dterm(st, o)
        return adt_attr(it, st, o, d, f)
    if isinstance(o, (Ref, T)) or (isinstance(o, Lst) and f in ("shape",)):
        t = it.deref(st, o)
        if isinstance(o, T) and META.get(t, {}).get("kind") == "dist":
            return getattr_(it, st, DVal(t), f)
        if f == "shape":
            s = shape(t)
            if s is not None:
                return Tup(s)
            return XObj(mk("shape", t))
        if f == "size":
            return arr.size(t)
        if f == "ndim":
            return num(rank(t)) if rank(t) is not None else mk("rank", t)
        if f == "T":
            if isinstance(o, Ref):
                return view(it, st, o, "T", None)
            return o
        if f == "dtype":
            return XObj(mk("ext", "dtype", t))
        if f == "flat":
            return it.box(st, arr.flatten(t))
        return Meth(o, f)
    if isinstance(o, Ext):
        c = const_of(o.name + "." + f)
        return c if c is not None else Ext(o.name + "." + f)
    if isinstance(o, XObj):
        if o.t.op == "ext" and o.t.args[0] == "finfo" and f in ("min", "max", "eps", "tiny"):
            if f == "eps" or len(o.t.args) > 1 and f in ("eps", "tiny"):
                return num(Fraction(1, 2 ** (52 if len(o.t.args) == 1 else 23 if f == "eps" else 126)))
            if len(o.t.args) > 1:
                top = num((2 - Fraction(1, 2 ** 23)) * 2 ** 127)
                return top if f == "max" else neg(top)
            return neg(FMAX) if f == "min" else FMAX if f == "max" else sym("$f" + f, kind="num", rank=0, pos=True)
        return XObj(mk("ext", "." + f, o.t))
    if isinstance(o, Fn):
        if f == "__name__":
            return const(o.info.node.name)
        return XObj(it.unk("function attribute " + f))
    return Meth(o, f)


def adt_attr(it, st, o, d, f):
    if d.op == "ite":
        a = adt_attr(it, st, DVal(d.args[1]), d.args[1], f)
        b = adt_attr(it, st, DVal(d.args[2]), d.args[2], f)
        return it.merge_val(st, d.args[0], a, b, st, st)
    if f in ("loc", "_loc"):
        if d.op == "dist" and d.args[0] in ("CMultivariateNormal", "CMultivariateUniform"):
            return it.box(st, d.args[1])
        r = mk("dloc", d)
        META.setdefault(r, {"shape": (it.ddim(d),)})
        arr._SH[r] = (it.ddim(d),)
        return it.box(st, r)
    if f in ("scale", "_scale"):
        if d.op == "dist" and d.args[0] in ("CMultivariateNormal", "CMultivariateUniform"):
            return it.box(st, d.args[2])
        return it.box(st, mk("dscale", d))
    if f == "dims":
        return it.ddim(d)
    if f in ("support_vals",):
        return it.box(st, support_term(it, d))
    if f in ("name", "type", "family"):
        return sym("%s of %s" % (f, show(d)), kind="str", rank=0)
    if f == "models" and d.op == "dist" and d.args[0] == "CMixtureModel":
        return it.mklist(st, (), d.args[1], ("dist",))
    if f == "weights" and d.op == "dist" and d.args[0] == "CMixtureModel":
        return it.box(st, d.args[2])
    if f == "weights" or f == "models":
        r = mk("d" + f, d)
        return it.box(st, r)
    if f == "__class__":
        return XObj(mk("ext", "class", d))
    return XObj(mk("ext", "dist." + f, d))


def support_term(it, d):
    r = mk("support", d)
    if r not in arr._SH or arr._SH[r] is None:
        arr._SH[r] = (num(2), it.ddim(d))
    return r


def adt_setattr(it, st, o, f, v):
    d = it.dterm(st, o)
    if f in ("loc", "_loc") and d.op == "dist" and d.args[0] in ("CMultivariateNormal", "CMultivariateUniform"):
        it.set_dterm(st, o, mk("dist", d.args[0], it.deref(st, v), d.args[2]))
        return
    if f in ("scale", "_scale") and d.op == "dist" and d.args[0] in ("CMultivariateNormal", "CMultivariateUniform"):
        it.set_dterm(st, o, mk("dist", d.args[0], d.args[1], it.deref(st, v)))
        return
    if f in ("weights", "models") and isinstance(o, Obj) and "models" in st.heap[o.id]:
        rec = dict(st.heap[o.id])
        rec[f] = v
        st.heap[o.id] = rec
        return
    it.set_dterm(st, o, mk("dist", "modified:" + f, d, it.deref(st, v)))


FMAX = sym("$fmax", kind="num", rank=0, pos=True)


# ------------------------------------------------------------------ distributions
def is_target(it, d):
    if d in it.target_syms:
        return True
    if d.op == "ite":
        return is_target(it, d.args[1]) or is_target(it, d.args[2])
    return False


def logp(it, d, x):
    """log density of distribution d at x"""
    if d.op == "ite":
        return ite(d.args[0], logp(it, d.args[1], x), logp(it, d.args[2], x))
    if d.op == "dist" and d.args[0] == "CMixtureModel":
        j = sym("j%d" % it.fresh(), kind="num", int=True, nonneg=True, rank=0)
        ms, w = d.args[1], d.args[2]
        n = length(ms)
        if ms.op == "concat" or ms.op == "single" or (is_num(n) and n.args[0] <= 16):
            if is_num(n):
                s = add(*[mul(index(w, num(k)), exp(logp(it, index(ms, num(k)), x))) for k in range(int(n.args[0]))])
                return log(s)
        return log(arr.lsum(n, j, mul(index(w, j), exp(logp(it, index(ms, j), x)))))
    return mk("logp", d, x)


def mixnorm(w):
    """weights as CMixtureModel stores them: cleaned and normalised"""
    if w.op == "full" and len(w.args[0]) == 1 and gt0(w.args[1]) is TRUE:
        return arr.full(w.args[0], power(w.args[0][0], num(-1)))
    return mk("mixnorm", w)


def adt_call(it, st, o, name, args, kw):
    d = it.dterm(st, o)
    if name == "sample":
        n = args[0] if args else kw.get("n_samples", kw.get("nsamples", ONE))
        n = it.deref(st, n)
        r = mk("draw", d, it.key(), (n, it.ddim(d)))
        it.ghost(st, "G:q", n)
        it.event(st, "draw", d=d, n=n, res=r)
        return it.box(st, r)
    if name in ("prob", "log_prob"):
        x = it.deref(st, args[0] if args else list(kw.values())[0])
        hook = getattr(it, "dens_hook", None)
        r = hook(it, st, d, name, x) if hook else None
        if r is not None:
            return r
        s = shape(x)
        n = npts(x)
        r = logp(it, d, x)
        if is_target(it, d):
            it.ghost(st, "G:pi", n)
        it.event(st, "eval", d=d, x=x, n=n, res=r, target=is_target(it, d))
        if s is not None and len(s) == 1:
            # one value, in an array of one
            r = reshape(r, (ONE,)) if shape(r) == () else r
        return it.box(st, exp(r) if name == "prob" else r)
    if name == "support":
        return it.box(st, support_term(it, d))
    if name == "set_moments":
        a, b = (it.deref(st, x) for x in args[:2])
        cls = d.args[0] if d.op == "dist" else "CMultivariateNormal"
        it.set_dterm(st, o, mk("dist", cls, a, b))
        return NONE
    if name == "set_weights" and isinstance(o, Obj) and "models" in st.heap[o.id]:
        rec = dict(st.heap[o.id])
        rec["weights"] = it.box(st, mixnorm(it.deref(st, args[0])))
        st.heap[o.id] = rec
        return NONE
    if name == "integral":
        return mk("dintegral", d, *[it.deref(st, a) for a in args[:2]])
    if name in ("is_ready",):
        return TRUE
    return XObj(mk("ext", "dist." + name, d, *[it.deref(st, a) for a in args]))


def adt_normal(it, st, cls, args, kw):
    p = args[0] if args else kw.get("params")
    if not isinstance(p, Dct):
        return NotImplemented
    r = st.heap[p.id].items
    m, s = r.get(const("mean")), r.get(const("sigma"))
    if m is None or s is None:
        it.event(st, "keyerror", key="mean" if m is None else "sigma")
        raise Dead()
    return it.alloc(st, {"D": mk("dist", "CMultivariateNormal", it.deref(st, m), it.deref(st, s))}, None, "dist")


def adt_uniform(it, st, cls, args, kw):
    p = args[0] if args else kw.get("params")
    if not isinstance(p, Dct):
        return NotImplemented
    r = st.heap[p.id].items
    m, s = r.get(const("center")), r.get(const("radius"))
    if m is None or s is None:
        it.event(st, "keyerror", key="center" if m is None else "radius")
        raise Dead()
    return it.alloc(st, {"D": mk("dist", "CMultivariateUniform", it.deref(st, m), it.deref(st, s))}, None, "dist")


def adt_mixture(it, st, cls, args, kw):
    p = args[0] if args else kw.get("params")
    if not isinstance(p, Dct):
        return NotImplemented
    r = st.heap[p.id].items
    ms, w = r.get(const("models")), r.get(const("weights"))
    if ms is None or w is None:
        it.event(st, "keyerror", key="models" if ms is None else "weights")
        raise Dead()
    if isinstance(ms, Uni):
        ms = it.concretise(st, ms)
    if not isinstance(ms, Lst):
        ms = it.mklist(st, (), it.deref(st, ms), ("dist",))
    return it.alloc(st, {"models": ms, "weights": it.box(st, mixnorm(it.deref(st, w)))}, None, "dist")


ADT_CLASSES = {"CMultivariateNormal": adt_normal, "CMultivariateUniform": adt_uniform, "CMixtureModel": adt_mixture}


# ------------------------------------------------------------------ lists
def list_append(it, st, l, v):
    if isinstance(l, Uni):
        l = it.concretise(st, l)
    if not isinstance(l, Lst):
        return
    r = st.heap[l.id]
    items = r.items + (v,)
    kind = r.kind
    if kind is None and r.base is None:
        kind = None
    if len(items) > 24:
        t = it.list_term(st, l)
        st.heap[l.id] = LRec(concat(t, it._elem_term(st, v)), (), it.elem_kind(st, l))
        return
    if r.base is not None or it.activeloops:
        # keep what is appended as a term: loop summaries work on terms
        ek = it.kind_of(st, v) if (r.base is None and not r.items) else it.elem_kind(st, l)
        k2 = it.kind_of(st, v)
        if ek != k2 and not (ek[0] in ("num", "arr") and k2[0] in ("num", "arr")):
            ek = ("other",) if ek != ("num",) or r.base is not None else k2
        if k2[0] == "obj" and isinstance(v, Obj):
            st.heap[l.id] = LRec(r.base, items, kind)
            return
        if r.base is not None:
            st.heap[l.id] = LRec(concat(it.list_term(st, l), it._elem_term(st, v)), (), ek)
            return
    st.heap[l.id] = LRec(r.base, items, kind)


def list_extend(it, st, l, v):
    if isinstance(l, Uni):
        l = it.concretise(st, l)
    if not isinstance(l, Lst):
        return
    d = it.iter_of(st, v)
    if d[0] == "conc" and len(d[1]) <= 16:
        for x in d[1]:
            list_append(it, st, l, x)
        return
    ek = it.elem_kind(st, l) if (st.heap[l.id].items or st.heap[l.id].base is not None) else None
    if ek is None:
        ek = it.elem_kind(st, v) if isinstance(v, Lst) else (("arr",) if (rank(it.deref(st, v)) or 0) > 1 else ("num",))
    st.heap[l.id] = LRec(concat(it.list_term(st, l), it.deref(st, v)), (), ek)


def list_method(it, st, l, name, args, kw):
    r = st.heap[l.id]
    if name == "append":
        list_append(it, st, l, args[0])
        return NONE
    if name == "extend":
        list_extend(it, st, l, args[0])
        return NONE
    if name == "copy":
        i = it.fresh()
        st.heap[i] = r
        return Lst(i)
    if name == "clear":
        st.heap[l.id] = LRec(None, (), r.kind)
        return NONE
    if name == "pop":
        k = it.deref(st, args[0]) if args else num(-1)
        if r.base is None and is_num(k) and r.items and -len(r.items) <= k.args[0] < len(r.items):
            items = list(r.items)
            v = items.pop(int(k.args[0]))
            st.heap[l.id] = LRec(None, items, r.kind)
            return v
        ek = it.elem_kind(st, l)
        t = it.list_term(st, l)
        v = index(t, k)
        st.heap[l.id] = LRec(delete_at(t, k), (), ek)
        return it.wrap(st, v, ek, None) if ek != ("dist",) else it.alloc(st, {"D": v}, None, "dist")
    if name == "remove":
        v = it.deref(st, args[0])
        if r.base is None and all(isinstance(x, (T, SObj, Obj)) for x in r.items):
            for i, x in enumerate(r.items):
                same = x is v or (is_num(x) if isinstance(x, T) else False) and isinstance(v, T) and is_num(v) and sub(x, v) is ZERO or \
                    isinstance(x, (SObj, Obj)) and type(x) is type(v) and x.id == v.id
                if same:
                    st.heap[l.id] = LRec(None, r.items[:i] + r.items[i + 1:], r.kind)
                    return NONE
                if not (isinstance(x, T) and is_num(x) and isinstance(v, T) and is_num(v) or isinstance(x, SObj) and isinstance(v, SObj) and
                        arr.distinct(x.id, v.id)):
                    break
            else:
                raise Dead()
        t = it.list_term(st, l)
        ek = it.elem_kind(st, l)
        st.heap[l.id] = LRec(mk("removeval", t, it.deref(st, args[0])), (), ek)
        return NONE
    if name == "insert":
        k = it.deref(st, args[0])
        if r.base is None and is_num(k):
            items = list(r.items)
            items.insert(int(k.args[0]), args[1])
            st.heap[l.id] = LRec(None, items, r.kind)
        else:
            ek = it.elem_kind(st, l)
            st.heap[l.id] = LRec(mk("insertat", it.list_term(st, l), k, it.deref(st, args[1])), (), ek)
        return NONE
    if name == "index":
        v = it.deref(st, args[0])
        if r.base is None:
            for i, x in enumerate(r.items):
                if x is v or isinstance(x, T) and isinstance(v, T) and is_num(x) and is_num(v) and sub(x, v) is ZERO or \
                        isinstance(x, (SObj, Obj)) and type(x) is type(v) and x.id == v.id:
                    return num(i)
                if not (isinstance(x, T) and is_num(x) and isinstance(v, T) and is_num(v) or isinstance(x, SObj) and isinstance(v, SObj) and
                        arr.distinct(x.id, v.id)):
                    break
        return mk("idx", it.list_term(st, l), it.deref(st, args[0]))
    if name == "reverse":
        if r.base is None:
            st.heap[l.id] = LRec(None, r.items[::-1], r.kind)
        else:
            st.heap[l.id] = LRec(arr.slice_(it.list_term(st, l), NONE, NONE, num(-1)), (), it.elem_kind(st, l))
        return NONE
    if name == "sort":
        st.heap[l.id] = LRec(mk("sorted", it.list_term(st, l)), (), it.elem_kind(st, l))
        return NONE
    if name == "count":
        return mk("count", it.list_term(st, l), it.deref(st, args[0]))
    return XObj(it.unk("list method " + name))


def repeated(it, n, t, m, ax):
    """rows of an array, some times each (repeat) or all of them some times (tile)"""
    if isinstance(m, T) and m.op == "tuple":
        m = Tup(list(m.args))
    if isinstance(m, T) and shape(m) is not None and len(shape(m)) == 1 and is_num(length(m)):
        m = Tup([index(m, num(i)) for i in range(int(length(m).args[0]))])
    if isinstance(m, Tup):
        ms = [x for x in m.items]
        if n == "tile" and len(ms) == 2 and ms[1] is ONE and isinstance(ms[0], T) and rank(t) == 1:
            t, m = single(t), ms[0]
        elif n == "tile" and len(ms) == 2 and ms[1] is ONE and isinstance(ms[0], T) and rank(t) == 2:
            m = ms[0]
        elif len(ms) == 1:
            m = ms[0]
    if not isinstance(m, T) or shape(m) not in ((), None) or rank(t) is None:
        return None
    if rank(t) == 0:
        return arr.full((m,), t) if n == "tile" or ax in (NONE, ZERO) else None
    if n == "repeat" and not (ax is ZERO or (ax is NONE and rank(t) == 1)) or n == "tile" and rank(t) != 1 and length(t) is not ONE:
        return None
    if length(t) is ONE:
        row = index(t, ZERO)
        if rank(t) == 1:
            return arr.full((m,), row)
        i = sym("i%d" % it.fresh(), kind="num", int=True, nonneg=True, rank=0)
        return mk("stack", m, i, row)
    if is_num(m) and is_num(length(t)) and 0 < m.args[0] <= 16 and 0 < length(t).args[0] <= 16:
        rows = [single(index(t, num(i))) for i in range(int(length(t).args[0]))]
        k = int(m.args[0])
        return concat(*([x for x in rows for _ in range(k)] if n == "repeat" else rows * k))
    return None


def delete_at(t, k):
    r = mk("deleteat", t, k)
    s = shape(t)
    if s:
        arr._SH[r] = (sub(s[0], ONE),) + s[1:]
    arr._LEN[r] = sub(length(t), ONE)
    return r


def dict_method(it, st, d, name, args, kw):
    r = st.heap[d.id]
    if name == "keys":
        return Seq("dictkeys", (d,)) if r.open else it.mklist(st, list(r.items))
    if name == "values":
        return it.mklist(st, list(r.items.values())) if not r.open else XObj(it.unk("open dict values"))
    if name == "items":
        return it.mklist(st, [Tup((k, v)) for k, v in r.items.items()]) if not r.open else XObj(it.unk("open dict items"))
    if name == "get":
        k = it.deref(st, args[0])
        if k in r.items:
            return r.items[k]
        dflt = args[1] if len(args) > 1 else NONE
        if not r.open:
            return dflt
        c = inop(it, st, k, d)
        v = getitem(it, st, d, k)
        rec = st.heap[d.id]
        items = dict(rec.items)
        items.pop(k, None)
        st.heap[d.id] = DRec(items, rec.open)
        return it.merge_val(st, c, v, dflt, st, st)
    if name in ("copy",):
        i = it.fresh()
        st.heap[i] = r
        return Dct(i)
    if name == "update":
        items = dict(r.items)
        op = r.open
        for a in args:
            if isinstance(a, Dct):
                items.update(st.heap[a.id].items)
                op = op or st.heap[a.id].open
        for k, v in kw.items():
            items[const(k)] = v
        st.heap[d.id] = DRec(items, op)
        it.event(st, "dictset", dct=d.id, key=NONE)
        return NONE
    if name in ("pop", "setdefault"):
        k = it.deref(st, args[0])
        items = dict(r.items)
        dflt = args[1] if len(args) > 1 else NONE
        it.event(st, "dictset", dct=d.id, key=k)
        if name == "pop":
            v = items.pop(k, None)
            st.heap[d.id] = DRec(items, r.open)
            return v if v is not None else (XObj(it.unk("pop of open dict")) if r.open else dflt)
        if k in items:
            return items[k]
        items[k] = dflt
        st.heap[d.id] = DRec(items, r.open)
        return dflt
    return XObj(it.unk("dict method " + name))


def str_method(it, st, s, name, args, kw):
    if name == "format":
        return dotformat(it, st, s, args, kw)
    if s.op == "const" and isinstance(s.args[1], str) and all(isinstance(a, T) and a.op == "const" for a in args):
        a = [x.args[1] for x in args]
        try:
            r = getattr(s.args[1], name)(*a) if name != "join" else None
        except Exception:
            r = None
        if isinstance(r, (str, bool, int)):
            return const(r)
        if isinstance(r, list):
            return it.mklist(st, [const(x) for x in r])
    if name == "join":
        v = args[0]
        if isinstance(v, Lst) and st.heap[v.id].base is None:
            parts = []
            for k, x in enumerate(st.heap[v.id].items):
                if k:
                    parts.append(s)
                parts.append(it.deref(st, x))
            return strcat(*parts)
        return mk("strjoin", s, it.deref(st, v))
    if name == "split":
        return it.mklist(st, (), mk("strsplit", s, *[it.deref(st, a) for a in args]), ("num",))
    if name in ("startswith", "endswith", "isdigit"):
        return mk("truthy", mk("strtest", s, mk("key", name), *[it.deref(st, a) for a in args]))
    return mk("fmt", mk("tuple", s, *[it.deref(st, a) for a in args]), "." + name)


# ------------------------------------------------------------------ arrays
def dims_of(it, st, v):
    if isinstance(v, Tup):
        return tuple(it.deref(st, x) for x in v.items)
    if isinstance(v, Lst) and st.heap[v.id].base is None:
        return tuple(it.deref(st, x) for x in st.heap[v.id].items)
    if isinstance(v, XObj) and v.t.op == "shape":
        return None
    t = it.deref(st, v)
    if is_scalar(t) or shape(t) is None:
        return (t,)
    if t.op == "full" and len(t.args[0]) == 1:
        pass
    return None


def boolnum(t):
    return t


def axis_arg(it, st, args, kw, pos=1):
    a = args[pos] if len(args) > pos else kw.get("axis", NONE)
    if isinstance(a, Tup):
        return mk("axes", *[it.deref(st, x) for x in a.items])
    return it.deref(st, a)


def red(op, t, axis, keep=False):
    if axis is not NONE and not is_num(axis):
        return mk("ext", op, t, axis)
    if op == "sum":
        if is_bool(t) and axis is NONE:
            return arr.nnz(t)
        r = sum_(t, axis)
    elif op == "mean":
        n = arr._axis_size(t, axis)
        if n is None and axis is NONE:
            n = arr.size(t)
        r = div(sum_(t, axis), n) if n is not None else mk("mean", t, axis)
    else:
        r = arr.reduce(op, t, axis)
    if keep:
        s = shape(t)
        if s is not None:
            if axis is NONE:
                return reshape(r, (ONE,) * len(s)) if len(s) else r
            k = int(axis.args[0]) % len(s)
            return reshape(r, s[:k] + (ONE,) + s[k + 1:])
    return r


def to_array(it, st, v):
    """numpy.array(v) as a term"""
    if isinstance(v, Tup):
        return concat(*[single(to_array(it, st, x)) for x in v.items])
    if isinstance(v, Lst):
        r = st.heap[v.id]
        parts = [r.base] if r.base is not None else []
        parts += [single(to_array(it, st, x)) for x in r.items]
        return concat(*parts)
    return it.deref(st, v)


def pieces(it, st, v):
    """the arrays of a sequence argument, or None when it is not a concrete sequence"""
    if isinstance(v, Uni):
        v = it.concretise(st, v)
    if isinstance(v, Tup):
        return [it.deref(st, x) for x in v.items]
    if isinstance(v, Lst):
        r = st.heap[v.id]
        if r.base is None:
            return [it.deref(st, x) for x in r.items]
    return None


def unnest(t):
    """concatenation of the elements of a list term"""
    if t is EMPTY:
        return EMPTY
    if t.op == "stack":
        return arr.collect(t.args[0], t.args[1], t.args[2])
    if t.op == "single":
        return t.args[0]
    if t.op == "full" and len(t.args[0]) > 1 and t.args[0][0] is ONE:
        return full(t.args[0][1:], t.args[1])
    if t.op == "concat":
        ps = [unnest(p) for p in t.args]
        return concat(*ps) if all(p is not None for p in ps) else None
    if t.op == "ite":
        a, b = unnest(t.args[1]), unnest(t.args[2])
        return ite(t.args[0], a, b) if a is not None and b is not None else None
    return None


def fconcat(it, st, args, kw):
    ax = axis_arg(it, st, args, kw)
    ps = pieces(it, st, args[0])
    if ps is None:
        t = it.deref(st, args[0])
        r = unnest(t)
        if r is None:
            r = mk("flatcat", t)
            s = shape(t)
            if s is not None and len(s) >= 2:
                r = reshape(t, (mul(s[0], s[1]),) + s[2:])
        return it.box(st, r)
    if ax in (NONE, ZERO) or ax is NONE:
        if ax is NONE and "axis" in kw:
            ps = [arr.flatten(p) for p in ps]
        return it.box(st, catrows(ps))
    return it.box(st, mk("hcat", ax, *ps))


def catrows(ps):
    return concat(*[p for p in ps])


def stacked_rows(t):
    """the rows of the arrays of a list, one dimensional ones being rows themselves"""
    if t is EMPTY:
        return EMPTY
    if t.op == "concat":
        ps = [stacked_rows(p) for p in t.args]
        return concat(*ps) if all(p is not None for p in ps) else None
    if t.op == "single":
        s = shape(t.args[0])
        return t.args[0] if s is not None and len(s) == 2 else t if s is not None and len(s) == 1 else None
    s = shape(t)
    if s is None or len(s) not in (2, 3):
        return None
    return t if len(s) == 2 else unnest(t)


def fvstack(it, st, args, kw):
    ps = pieces(it, st, args[0])
    if ps is None:
        t = it.deref(st, args[0])
        s = shape(t)
        if s is not None and len(s) == 2:
            return it.box(st, t)
        r = stacked_rows(t)
        return it.box(st, r if r is not None else it.unk("vstack", t))
    out = []
    for p in ps:
        s = shape(p)
        out.append(single(p) if s is not None and len(s) <= 1 and p is not EMPTY else p)
    return it.box(st, concat(*out))


def np_where(it, st, args, kw):
    c = it.deref(st, args[0])
    if len(args) == 1:
        if is_bool(c) and rank(c) == 1:
            return Tup([it.box(st, arr.where1(c))])
        return Tup([it.box(st, mk("ext", "nonzero", c))])
    a, b = it.deref(st, args[1]), it.deref(st, args[2])
    return it.box(st, ite(c, a, b))


def isposinf(t):
    if t is INF:
        return TRUE
    if t is neg(INF) or t.op == "num":
        return FALSE
    if t.op == "ite":
        return ite(t.args[0], isposinf(t.args[1]), isposinf(t.args[2]))
    return mk("isposinf", t)


def clip(x, lo, hi):
    if lo is not NONE:
        x = arr.maximum(x, lo)
    if hi is not NONE:
        x = arr.minimum(x, hi)
    return x


def of_dtype(val, dt):
    """zeros and ones of a boolean array are False and True"""
    if dt is not None and dt is not NONE and val in (ZERO, ONE) and (isinstance(dt, T) and dt.op == "const" and dt.args[1] in ("bool", "?") or
                                                                     not isinstance(dt, T) and "bool" in repr(dt)):
        return FALSE if val is ZERO else TRUE
    return val


def fill_dims(it, st, args, kw, val, pos=1):
    val = of_dtype(val, kw.get("dtype", args[pos] if len(args) > pos else None))
    d = args[0] if args else kw.get("shape")
    ds = dims_of(it, st, d)
    if ds is None:
        t = it.deref(st, d)
        return it.box(st, it.unk("array of computed shape", t))
    return it.box(st, full(ds, val) if len(ds) else val)


def _like(it, st, args, val, kw=None, pos=1):
    val = of_dtype(val, (kw or {}).get("dtype", args[pos] if len(args) > pos else None))
    t = it.deref(st, args[0])
    s = shape(t)
    if s == ():
        return val
    if s is None:
        r = mk("fulllike", t, val)
        return it.box(st, r)
    return it.box(st, full(s, val))


def size_arg(it, st, v):
    if v is NONE or v is None:
        return None
    return dims_of(it, st, v)


def rand_uniform(it, st, args, kw):
    lo = args[0] if len(args) > 0 else kw.get("low", ZERO)
    hi = args[1] if len(args) > 1 else kw.get("high", ONE)
    sz = args[2] if len(args) > 2 else kw.get("size", NONE)
    lo, hi = it.deref(st, lo), it.deref(st, hi)
    dims = size_arg(it, st, sz)
    fits(it, st, (lo, hi), dims)
    if dims is None:
        if sz is not NONE:
            return it.box(st, it.unk("random array of computed shape"))
        dims = arr.bshape([shape(lo), shape(hi)])
        if dims is None:
            dims = ()
            r = mk("randlike", it.key(), lo, hi)
            return it.box(st, add(lo, mul(sub(hi, lo), r)))
    it.event(st, "random", fn="uniform", lo=lo, hi=hi, dims=dims)
    r = mk("rand01", it.key()) if dims == () else mk("rand", it.key(), tuple(dims))
    if lo.op == "full" and is_scalar(lo.args[1]):
        lo = lo.args[1]
    if hi.op == "full" and is_scalar(hi.args[1]):
        hi = hi.args[1]
    return it.box(st, add(lo, mul(sub(hi, lo), r)))


def rand_rand(it, st, args, kw):
    dims = tuple(it.deref(st, a) for a in args)
    it.event(st, "random", fn="rand", lo=ZERO, hi=ONE, dims=dims)
    return it.box(st, mk("rand01", it.key()) if dims == () else mk("rand", it.key(), dims))


def fits(it, st, pars, dims):
    """numpy refuses parameters that do not broadcast into the requested size"""
    if dims is None:
        return
    for p in pars:
        s = shape(p) if isinstance(p, T) else None
        if s is None:
            continue
        bad = len(s) > len(dims) and any(is_num(d) and d is not ONE for d in s[:len(s) - len(dims)])
        for a, b in zip(s[::-1], tuple(dims)[::-1]):
            if is_num(a) and is_num(b) and a is not ONE and a is not b:
                bad = True
        if bad:
            it.event(st, "error", what="parameters of shape %s for draws of shape %s" % (
                ", ".join(map(show, s)), ", ".join(map(show, dims))))
            raise Dead()


def rand_dist(it, st, cls, pars, sz, rowdims):
    dims = size_arg(it, st, sz)
    if rowdims is None:
        fits(it, st, pars, dims)
    d = mk("dist", cls, *pars)
    it.event(st, "random", fn=cls, dims=dims, d=d)
    if dims is None:
        if rowdims is None:
            return it.box(st, mk("draw", d, it.key(), ()))
        return it.box(st, mk("draw", d, it.key(), tuple(rowdims)))
    return it.box(st, mk("draw", d, it.key(), tuple(dims) + tuple(rowdims or ())))


def call_np(it, st, f, args, kw, node):
    """numpy / scipy functions by last name components"""
    n = f
    A = lambda k: it.deref(st, args[k])
    B = lambda t: it.box(st, t)
    if n in ("array", "asarray", "asanyarray", "atleast_1d", "ascontiguousarray", "float64", "copy", "atleast_2d", "squeeze"):
        v = args[0] if args else list(kw.values())[0]
        if isinstance(v, Uni):
            v = it.concretise(st, v)
        if isinstance(v, Seq):
            v = it.box(st, it.deref(st, v))
        t = to_array(it, st, v)
        if n == "asarray" and isinstance(v, Ref):
            return v
        if n in ("atleast_1d", "atleast_2d") and shape(t) == ():
            t = single(t)
        if n == "atleast_2d" and rank(t) == 1:
            t = single(t)
        if n == "squeeze":
            s = shape(t)
            if s is not None:
                t = reshape(t, tuple(d for d in s if d is not ONE)) if len([d for d in s if d is not ONE]) else \
                    (index_all(t))
        if isinstance(v, T) and n in ("array", "asarray", "copy", "float64"):
            return v
        if isinstance(v, XObj):
            return XObj(mk("ext", "array", v.t))
        i = it.fresh()
        st.heap[i] = Cell(t)
        return Ref(i)
    if n in ("zeros", "empty"):
        return fill_dims(it, st, args, kw, ZERO)
    if n == "ones":
        return fill_dims(it, st, args, kw, ONE)
    if n == "full":
        v = args[1] if len(args) > 1 else kw.get("fill_value")
        return fill_dims(it, st, args, kw, it.deref(st, v), 2)
    if n in ("zeros_like", "empty_like"):
        return _like(it, st, args, ZERO, kw)
    if n == "ones_like":
        return _like(it, st, args, ONE, kw)
    if n == "full_like":
        return _like(it, st, args, it.deref(st, args[1] if len(args) > 1 else kw.get("fill_value")), kw, 2)
    if n == "eye" or n == "identity":
        m = A(0)
        r = arr_diag(full((m,), ONE))
        return B(r)
    if n == "concatenate":
        return fconcat(it, st, args, kw)
    if n in ("repeat", "tile"):
        r = repeated(it, n, to_array(it, st, args[0]), A(1) if len(args) > 1 else it.deref(st, kw.get("repeats", kw.get("reps"))),
                     axis_arg(it, st, args, kw, 2) if n == "repeat" else NONE)
        if r is not None:
            return B(r)
    if n == "append":
        ax = axis_arg(it, st, args, kw, 2)
        a, b = A(0), to_array(it, st, args[1])
        if ax is NONE:
            a, b = arr.flatten(a), (single(b) if shape(b) == () else arr.flatten(b))
            return B(concat(a, b))
        return B(concat(a, b))
    if n == "vstack":
        return fvstack(it, st, args, kw)
    if n in ("hstack", "r_"):
        ps = pieces(it, st, args[0])
        if ps is not None and all(rank(p) in (0, 1) for p in ps):
            return B(concat(*[single(p) if rank(p) == 0 else p for p in ps]))
        return B(mk("hcat", ONE, *ps) if ps is not None else mk("flatcat", A(0)))
    if n == "stack":
        ps = pieces(it, st, args[0])
        if ps is not None:
            return B(concat(*[single(p) for p in ps]))
        return B(A(0))
    if n in ("exp", "log", "sqrt", "abs", "absolute", "fabs"):
        t = A(0)
        return B({"exp": exp, "log": log, "sqrt": sqrt}.get(n, absv)(t))
    if n == "log1p":
        return B(log(add(ONE, A(0))))
    if n == "log2":
        return B(div(log(A(0)), log(num(2))))
    if n == "log10":
        return B(div(log(A(0)), log(num(10))))
    if n == "expm1":
        return B(sub(exp(A(0)), ONE))
    if n == "square":
        return B(power(A(0), num(2)))
    if n in ("power", "float_power"):
        return B(power(A(0), A(1)))
    if n in ("sin", "cos", "tan", "tanh", "gamma", "gammaln", "erf", "sign", "arctan"):
        return B(mk("fn1", n, A(0)))
    if n in ("add", "subtract", "multiply", "divide", "true_divide"):
        return B(arith({"add": "Add", "subtract": "Sub", "multiply": "Mult"}.get(n, "Div"), A(0), A(1)))
    if n == "negative":
        return B(neg(A(0)))
    if n == "floor":
        return B(floor(A(0)))
    if n in ("ceil", "round", "around", "rint", "trunc"):
        return B(mk({"around": "round", "trunc": "int"}.get(n, n), A(0)) if A(0).op != "num" else A(0))
    if n == "floor_divide":
        return B(floor(div(A(0), A(1))))
    if n in ("mod", "remainder"):
        return B(arith("Mod", A(0), A(1)))
    if n in ("maximum", "fmax"):
        return B(arr.maximum(A(0), A(1)))
    if n in ("minimum", "fmin"):
        return B(arr.minimum(A(0), A(1)))
    if n == "clip":
        lo = it.deref(st, args[1] if len(args) > 1 else kw.get("a_min", NONE))
        hi = it.deref(st, args[2] if len(args) > 2 else kw.get("a_max", NONE))
        return B(clip(A(0), lo, hi))
    if n == "logical_and":
        return B(band(it.truth_term(A(0)), it.truth_term(A(1))))
    if n == "logical_or":
        return B(bor(it.truth_term(A(0)), it.truth_term(A(1))))
    if n in ("logical_not", "invert", "bitwise_not"):
        return B(bnot(A(0)))
    if n == "equal":
        return B(eq(A(0), A(1)))
    if n == "not_equal":
        return B(bnot(eq(A(0), A(1))))
    if n in ("greater", "less", "greater_equal", "less_equal"):
        a, b = A(0), A(1)
        return B({"greater": lambda: gt0(sub(a, b)), "less": lambda: gt0(sub(b, a)), "greater_equal": lambda: ge0(sub(a, b)),
                  "less_equal": lambda: ge0(sub(b, a))}[n]())
    if n == "isnan":
        return B(isnan(A(0)))
    if n == "isneginf":
        return B(isneginf(A(0)))
    if n == "isposinf":
        return B(isposinf(A(0)))
    if n == "isinf":
        return B(bor(isneginf(A(0)), isposinf(A(0))))
    if n == "isfinite":
        t = A(0)
        return B(band(bnot(isnan(t)), bnot(isneginf(t)), bnot(isposinf(t))))
    if n == "isclose":
        return B(mk("isclose", A(0), A(1)))
    if n == "allclose":
        return mk("all", mk("isclose", A(0), A(1)), NONE)
    if n == "array_equal":
        return mk("all", eq(A(0), A(1)), NONE)
    if n == "nan_to_num":
        t = A(0)
        return B(ite(isnan(t), it.deref(st, kw.get("nan", ZERO)), t))
    if n == "where":
        return np_where(it, st, args, kw)
    if n in ("sum", "mean", "prod", "max", "amax", "min", "amin", "all", "any", "std", "var", "nansum", "median"):
        op = {"amax": "max", "amin": "min"}.get(n, n)
        v = args[0]
        if isinstance(v, Seq):
            v = it.box(st, it.deref(st, v))
        t = to_array(it, st, v)
        keep = "keepdims" in kw and it.deref(st, kw["keepdims"]) is TRUE
        if op in ("all", "any") and not is_bool(t):
            t = it.truth_term(t)
        return B(red(op, t, axis_arg(it, st, args, kw), keep))
    if n == "average":
        t = A(0)
        w = args[2] if len(args) > 2 else kw.get("weights", NONE)
        w = it.deref(st, w)
        ax = axis_arg(it, st, args, kw)
        if w is NONE:
            return B(red("mean", t, ax))
        s = shape(t)
        if ax is NONE or s is not None and len(s) == 1:
            return B(div(sum_(mul(t, w)), sum_(w)))
        if s is not None and len(s) == 2 and ax is ZERO and rank(w) == 1:
            return B(div(sum_(mul(t, reshape(w, (length(w), ONE))), ZERO), sum_(w)))
        return B(mk("ext", "average", t, w, ax))
    if n in ("argmax", "argmin"):
        ax = axis_arg(it, st, args, kw)
        t = to_array(it, st, args[0])
        if ax is NONE or rank(t) == 1:
            return mk("idx", t, mk("key", n))
        return B(mk(n, t, ax))
    if n in ("argwhere", "flatnonzero") and len(args) == 1 and is_bool(A(0)) and rank(A(0)) == 1:
        w = arr.where1(A(0))
        return B(reshape(w, (arr.length(w), ONE)) if n == "argwhere" else w)
    if n == "nonzero" and len(args) == 1 and is_bool(A(0)) and rank(A(0)) == 1:
        return Tup([B(arr.where1(A(0)))])
    if n in ("cumsum", "cumprod", "argsort", "sort", "diff", "unique", "argwhere", "nonzero", "flatnonzero"):
        return B(mk("ext", n, A(0), *[it.deref(st, a) for a in args[1:]], *[it.deref(st, v) for _k, v in sorted(kw.items())]))
    if n == "count_nonzero":
        t = A(0)
        t = t if is_bool(t) else bnot(eq(t, ZERO))
        return arr.nnz(t)
    if n == "logaddexp.reduce" or n == "logsumexp":
        t = A(0)
        ax = axis_arg(it, st, args, kw)
        if n == "logaddexp.reduce" and ax is NONE and "axis" not in kw and len(args) < 2:
            ax = ZERO
        b = kw.get("b")
        e = exp(t)
        if b is not None:
            e = mul(e, it.deref(st, b))
        return B(log(sum_(e, ax)))
    if n == "logaddexp":
        return B(log(add(exp(A(0)), exp(A(1)))))
    if n == "add.reduce":
        return B(sum_(A(0), axis_arg(it, st, args, kw)))
    if n in ("dot", "matmul", "inner", "vdot"):
        return B(arr.matmul(A(0), A(1)))
    if n == "outer":
        return B(mk("ext", "outer", A(0), A(1)))
    if n == "transpose":
        t = A(0)
        ax = args[1] if len(args) > 1 else kw.get("axes")
        if ax is None:
            if isinstance(args[0], Ref):
                return view(it, st, args[0], "T", None)
            return B(arr.transpose(t))
        axs = dims_of(it, st, ax)
        if axs is not None and all(is_num(x) for x in axs):
            p = tuple(int(x.args[0]) for x in axs)
            if p == tuple(range(len(p))):
                return B(t)
            if p == tuple(range(len(p)))[::-1]:
                return B(arr.transpose(t))
            if t.op == "permute" and tuple(t.args[1][k] for k in p) == tuple(range(len(p))):
                return B(t.args[0])
            return B(mk("permute", t, p))
        return B(mk("ext", "transpose", t))
    if n == "swapaxes":
        t = A(0)
        if all(is_num(A(k)) for k in (1, 2)) and rank(t) is not None:
            p = list(range(rank(t)))
            a, b = int(A(1).args[0]), int(A(2).args[0])
            p[a], p[b] = p[b], p[a]
            return B(mk("permute", t, tuple(p)))
        return B(mk("ext", "swapaxes", t))
    if n == "reshape":
        t = A(0)
        ds = dims_of(it, st, args[1])
        return B(reshape(t, ds)) if ds is not None else B(mk("ext", "reshape", t))
    if n in ("ravel",):
        return B(arr.flatten(A(0)))
    if n == "expand_dims":
        t = A(0)
        ax = axis_arg(it, st, args, kw)
        s = shape(t)
        if s is not None and is_num(ax):
            k = int(ax.args[0])
            k = k if k >= 0 else k + len(s) + 1
            return B(reshape(t, s[:k] + (ONE,) + s[k:]))
        return B(mk("ext", "expand_dims", t))
    if n == "diag":
        return B(arr_diag(A(0)))
    if n == "einsum" and args:
        spec = it.deref(st, args[0])
        ts = [it.deref(st, a) for a in args[1:]]
        sp = arr.einspec(spec.args[1] if spec.op == "const" else None, ts)
        if sp is not None:
            return B(arr.einsum(sp, ts))
    if n == "linalg.solve" and len(args) == 2 and rank(A(0)) == 2:
        return B(arr.matmul(mk("inv", A(0)), A(1)))
    if n in ("linalg.det", "linalg.inv", "linalg.norm", "linalg.cholesky", "linalg.slogdet", "linalg.pinv", "linalg.solve"):
        t = A(0)
        k = n.split(".")[1]
        if k == "det":
            return mk("det", t)
        if k == "slogdet":
            return Tup([ONE, log(mk("det", t))])
        if k == "inv":
            return B(mk("inv", t))
        if k == "cholesky" and rank(t) == 2 and len(args) == 1 and not kw:
            return B(mk("chol", t))
        if k == "norm" and len(args) == 1 and "ord" not in kw:
            ax = kw.get("axis")
            return B(sqrt(sum_(power(t, num(2)), it.deref(st, ax) if ax is not None else NONE)))
        return B(mk("ext", k, t, *[it.deref(st, a) for a in args[1:]]))
    if n == "cov":
        t = A(0)
        return B(mk("ext", "cov", t, *[mk("kwarg", mk("key", k), it.deref(st, v)) for k, v in sorted(kw.items())]))
    if n == "arange":
        if len(args) == 1:
            return B(mk("range", ZERO, A(0)))
        if len(args) == 2:
            return B(mk("range", A(0), A(1)))
        return B(mk("ext", "arange", *[it.deref(st, a) for a in args]))
    if n == "linspace" and len(args) == 3 and not set(kw) - {"endpoint"}:
        a, b, k = A(0), A(1), A(2)
        end = it.deref(st, kw["endpoint"]) if "endpoint" in kw else TRUE
        if k is ONE:
            return B(arr.full((ONE,), a))
        if end in (TRUE, FALSE) and shape(a) == () and shape(b) == ():
            return B(add(a, mul(sub(b, a), div(mk("range", ZERO, k), sub(k, ONE) if end is TRUE else k))))
    if n in ("inf", "pi", "e", "nan", "newaxis"):
        return None
    if n == "finfo":
        a = args[0] if args else kw.get("dtype")
        single = isinstance(a, (Ext, Fn, Uni)) and str(getattr(a, "name", "")).endswith(("float32", "single")) or isinstance(a, T) and a is const("float32")
        return XObj(mk("ext", "finfo", const("single")) if single else mk("ext", "finfo"))
    if n == "random.seed":
        it.event(st, "seed", val=it.deref(st, args[0]) if args else NONE)
        return NONE
    if n == "random.uniform":
        return rand_uniform(it, st, args, kw)
    if n in ("random.rand",):
        return rand_rand(it, st, args, kw)
    if n in ("random.random", "random.random_sample", "random.sample", "random.ranf"):
        sz = args[0] if args else kw.get("size", NONE)
        return rand_uniform(it, st, [ZERO, ONE, sz], {})
    if n == "random.multivariate_normal":
        m, c = A(0), A(1)
        sz = args[2] if len(args) > 2 else kw.get("size", NONE)
        return rand_dist(it, st, "CMultivariateNormal", [m, c], sz, [length(m)])
    if n in ("random.normal", "random.exponential", "random.laplace", "random.gamma", "random.standard_normal", "random.randn",
             "random.beta", "random.pareto", "random.poisson", "random.standard_exponential"):
        nm = n.split(".")[1]
        if nm == "randn":
            return rand_dist(it, st, "np:normal", [ZERO, ONE], Tup(args) if args else NONE, None)
        if nm.startswith("standard"):
            return rand_dist(it, st, "np:" + nm, [], args[0] if args else kw.get("size", NONE), None)
        npar = 1 if nm in ("exponential", "poisson", "pareto") else 2
        ps = [it.deref(st, a) for a in args[:npar]]
        for k in ("loc", "scale"):
            if k in kw:
                ps.append(it.deref(st, kw[k]))
        sz = args[npar] if len(args) > npar else kw.get("size", NONE)
        return rand_dist(it, st, "np:" + nm, ps, sz, None)
    if n == "random.multinomial":
        cnt, w = A(0), A(1)
        it.event(st, "random", fn="multinomial", dims=None)
        r = mk("draw", mk("dist", "np:multinomial", cnt, w), it.key(), (length(w),))
        return B(r)
    if n in ("random.randint", "random.random_integers"):
        lo = A(0) if args else it.deref(st, kw["low"])
        hi = it.deref(st, args[1] if len(args) > 1 else kw.get("high", NONE))
        if hi is NONE:
            lo, hi = ZERO, lo
        if n.endswith("random_integers"):
            hi = add(hi, ONE)
        sz = args[2] if len(args) > 2 else kw.get("size", NONE)
        it.event(st, "random", fn="randint", lo=lo, hi=hi, dims=None)
        if sz is NONE:
            return mk("randint", lo, hi, it.key())
        ds = dims_of(it, st, sz)
        return B(mk("draw", mk("dist", "np:randint", lo, hi), it.key(), tuple(ds) if ds is not None else ()))
    if n in ("random.choice", "random.permutation", "random.shuffle"):
        it.event(st, "random", fn=n.split(".")[1], dims=None)
        v = args[0]
        t = it.deref(st, v) if not (isinstance(v, Lst) and n.endswith("shuffle")) else NONE
        if n.endswith("shuffle"):
            it.mutate_unknown(st, v)
            return NONE
        sz = it.deref(st, args[1] if len(args) > 1 else kw.get("size", NONE))
        p = it.deref(st, kw.get("p", args[3] if len(args) > 3 else NONE))
        if n.endswith("choice") and is_scalar(t):
            t = mk("range", ZERO, t)
        if n.endswith("choice"):
            d = mk("dist", "np:choice", t, p, it.deref(st, kw.get("replace", args[2] if len(args) > 2 else TRUE)))
            if sz is NONE:
                return B(index(t, mk("randint", ZERO, length(t), it.key()))) if p is NONE else \
                    B(index(t, mk("randint", p, length(t), it.key())))
            return B(mk("draw", d, it.key(), (sz,)))
        return B(mk("ext", "permutation", t, it.key()))
    ts = []
    for a in args:
        ts.append(it.deref(st, a))
    for k, v in sorted(kw.items()):
        ts.append(mk("kwarg", mk("key", k), it.deref(st, v)))
    return XObj(mk("ext", n, *ts))


def index_all(t):
    while rank(t):
        t = index(t, ZERO)
    return t


def arr_diag(t):
    if t.op == "diag" and (rank(t) == 2):
        return t.args[0] if rank(t.args[0]) == 1 else mk("diag", t)
    return mk("diag", t)


CONSTS = {"inf": INF, "pi": PI, "nan": mk("nan"), "newaxis": NONE, "Inf": INF, "infty": INF}
E_CONST = exp(ONE)


def const_of(f):
    """value of an external constant, or None"""
    parts = f.split(".")
    if parts[0] in ("numpy", "math", "np") and len(parts) == 2:
        if parts[1] in CONSTS:
            return CONSTS[parts[1]]
        if parts[1] == "e":
            return E_CONST
    return None


# ------------------------------------------------------------------ method calls on values
def arr_method(it, st, o, name, args, kw, node):
    t = it.deref(st, o)
    B = lambda x: it.box(st, x)
    if name == "reshape":
        if len(args) == 1 and not isinstance(args[0], T):
            ds = dims_of(it, st, args[0])
        elif len(args) == 1 and isinstance(args[0], T):
            ds = dims_of(it, st, args[0])
        elif not args and "newshape" in kw:
            ds = dims_of(it, st, kw["newshape"])
        else:
            ds = tuple(it.deref(st, a) for a in args)
        if ds is None:
            return B(it.unk("reshape to computed shape", t))
        if isinstance(o, Ref):
            r = reshape(t, ds)
            return it.box(st, r, ((TRUE, o.id, "reshape", ds),)) if not is_scalar(r) else r
        return B(reshape(t, ds))
    if name in ("ravel", "view"):
        if isinstance(o, Ref):
            return view(it, st, o, "reshape", (num(-1),)) if name == "ravel" else o
        return B(single(t))
    if name == "flatten":
        if shape(t) == ():
            return B(single(t))
        i = it.fresh()
        st.heap[i] = Cell(arr.flatten(t))
        return Ref(i)
    if name in ("copy", "astype", "__copy__"):
        if name == "astype" and args:
            ty = args[0]
            nm = ty.name if isinstance(ty, Ext) else (str(ty.args[1]) if isinstance(ty, T) and ty.op == "const" else "")
            if "int" in nm and not it.intlike(t):
                t = mk("int", t)
            if "bool" in nm:
                t = it.truth_term(t)
        if not isinstance(o, Ref):
            return t
        i = it.fresh()
        st.heap[i] = Cell(t)
        return Ref(i)
    if name in ("sum", "mean", "max", "min", "any", "all", "prod", "std", "var"):
        keep = "keepdims" in kw and it.deref(st, kw["keepdims"]) is TRUE
        if name in ("all", "any") and not is_bool(t):
            t = it.truth_term(t)
        return B(red(name, t, axis_arg(it, st, args, kw, 0), keep))
    if name in ("argmax", "argmin", "dot", "clip", "transpose", "squeeze", "cumsum", "nonzero", "argsort", "round", "swapaxes"):
        if name == "transpose" and args:
            return call_np(it, st, name, [o, Tup(args) if not isinstance(args[0], (Tup, Lst)) else args[0]], kw, node)
        return call_np(it, st, name, [o] + list(args), kw, node)
    if name == "tolist":
        s = shape(t)
        if s == ():
            return t
        return it.mklist(st, (), t, ("num",) if s is not None and len(s) == 1 else ("arr",))
    if name == "item":
        return index_all(t) if shape(t) is not None and not args else mk("item", t, *[it.deref(st, a) for a in args])
    if name == "fill":
        s = shape(t)
        it.event(st, "inplace", cell=o.id)
        it.cell_write(st, o.id, full(s, it.deref(st, args[0])) if s is not None else it.unk("fill"))
        return NONE
    if name in ("sort", "resize", "put", "partition", "itemset", "setflags") and isinstance(o, Ref):
        it.event(st, "inplace", cell=o.id)
        it.cell_write(st, o.id, mk("ext", "sort", t) if name == "sort" and not args and not kw and rank(t) == 1 else it.unk("in place " + name, t))
        return NONE
    if name == "repeat":
        return B(mk("ext", "repeat", t, *[it.deref(st, a) for a in args]))
    return XObj(mk("ext", "." + name, t, *[it.deref(st, a) for a in args]))


def call_ext(it, st, f, args, kw, node=None):
    if isinstance(f, Meth):
        return call_meth(it, st, f, args, kw, node)
    name = f.name
    head, _, rest = name.partition(".")
    h = it.hooks.get("ext:" + name)
    if h is not None:
        r = h(it, f, args, kw, st)
        if r is not NotImplemented:
            return r
    if head == "builtins":
        return builtin(it, st, rest, args, kw, node)
    if head == "numpy":
        return call_np(it, st, rest, args, kw, node)
    if head == "scipy":
        if rest.startswith("special."):
            return call_np(it, st, rest.split(".", 1)[1], args, kw, node)
    if head == "math":
        return call_np(it, st, rest, args, kw, node)
    if name in ("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "timeit.default_timer",
                "time.time_ns"):
        r = mk("clock", it.key(node), const(name))
        it.event(st, "clock", res=r)
        return r
    if name == "time.sleep":
        return NONE
    if name == "itertools.product":
        if "repeat" in kw and len(args) == 1:
            p = pieces(it, st, args[0])
            if p is not None and len(p) == 2 and p[0] is num(-1) and p[1] is ONE:
                return Seq("signs", (it.deref(st, kw["repeat"]),))
        ps = [pieces(it, st, a) for a in args]
        rp = it.deref(st, kw["repeat"]) if "repeat" in kw else ONE
        if all(p is not None and all(is_scalar(x) for x in p) for p in ps) and is_num(rp) and ps:
            ps = ps * int(rp.args[0])
            n = 1
            for p in ps:
                n *= len(p)
            if 0 < n <= 64:
                rows = [Tup([])]
                for p in ps:
                    rows = [Tup(list(r.items) + [x]) for r in rows for x in p]
                return it.mklist(st, rows, None)
        return XObj(it.unk("itertools.product"))
    if name in ("copy.deepcopy", "copy.copy"):
        return deepcopy(it, st, args[0], name.endswith("deepcopy"))
    if name == "object.__init__":
        return NONE
    it.event(st, "extcall", name=name, args=list(args), kw=dict(kw))
    ts = [it.deref(st, a) for a in args] + [mk("kwarg", mk("key", k), it.deref(st, v)) for k, v in sorted(kw.items())]
    return XObj(mk("ext", name, it.key(node), *ts))


def deepcopy(it, st, v, deep):
    if isinstance(v, Ref):
        i = it.fresh()
        st.heap[i] = Cell(st.heap[v.id].t)
        return Ref(i)
    if isinstance(v, Lst):
        r = st.heap[v.id]
        return it.mklist(st, [deepcopy(it, st, x, deep) if deep else x for x in r.items], r.base, r.kind)
    if isinstance(v, Dct):
        r = st.heap[v.id]
        return it.mkdict(st, {k: deepcopy(it, st, x, deep) if deep else x for k, x in r.items.items()}, r.open)
    if isinstance(v, Obj):
        rec = st.heap[v.id]
        return it.alloc(st, {k: (deepcopy(it, st, x, deep) if deep and not isinstance(x, T) else x) for k, x in rec.items()},
                        v.cls, v.adt)
    if isinstance(v, DElem):
        return it.alloc(st, {"D": it.dterm(st, v)}, None, "dist")
    if isinstance(v, Tup):
        return Tup([deepcopy(it, st, x, deep) for x in v.items])
    return v


def call_meth(it, st, f, args, kw, node):
    o, n = f.recv, f.name
    if is_adt(o):
        return adt_call(it, st, o, n, args, kw)
    if isinstance(o, Lst):
        return list_method(it, st, o, n, args, kw)
    if isinstance(o, Dct):
        return dict_method(it, st, o, n, args, kw)
    if isinstance(o, Ref):
        return arr_method(it, st, o, n, args, kw, node)
    if isinstance(o, T):
        if is_strterm(o):
            return str_method(it, st, o, n, args, kw)
        if shape(o) is None and META.get(o, {}).get("kind") is None:
            i = it.fresh()
            st.heap[i] = Cell(o)
            if n in ("reshape", "flatten", "sum", "copy", "tolist", "mean", "max", "min", "ravel", "any", "all"):
                return arr_method(it, st, Ref(i), n, args, kw, node)
            it.event(st, "extmeth", recv=o, name=n, args=list(args), kw=dict(kw), targs=[it.deref(st, a) for a in args],
                     tkw={k: it.deref(st, v) for k, v in kw.items()}, res=None)
            return XObj(mk("ext", "." + n, o, it.key(node), *[it.deref(st, a) for a in args]))
        return arr_method(it, st, o, n, args, kw, node)
    if isinstance(o, Tup):
        if n == "index":
            return mk("idx", it.deref(st, o), it.deref(st, args[0]))
        if n == "count":
            return mk("count", it.deref(st, o), it.deref(st, args[0]))
    if isinstance(o, Uni):
        return it.call(st, Uni(o.c, it.getattr(st, o.a, n), it.getattr(st, o.b, n)), args, kw, node)
    return XObj(it.unk("method %s" % n))


def call_xobj(it, st, f, args, kw, node):
    t = f.t
    if t.op == "ext" and t.args[0] == ".query" and len(args) == 1 and not kw and isinstance(t.args[1], T) \
            and t.args[1].op == "ext" and t.args[1].args[0] in ("scipy.spatial.KDTree", "scipy.spatial.cKDTree"):
        x, data = it.deref(st, args[0]), t.args[1].args[-1]
        if rank(x) in (1, 2):
            return Tup([it.box(st, mk("near", w, data, x)) if rank(x) == 2 else mk("near", w, data, x) for w in ("dist", "index")])
    ts = [it.deref(st, a) for a in args] + [mk("kwarg", mk("key", k), it.deref(st, v)) for k, v in sorted(kw.items())]
    res = mk("ext", "call", t, it.key(node), *ts)
    if t.op == "ext" and str(t.args[0]).startswith(".") and len(t.args) == 2:
        it.event(st, "extmeth", recv=t.args[1], name=t.args[0][1:], args=list(args), kw=dict(kw), res=res,
                 targs=[it.deref(st, a) for a in args], tkw={k: it.deref(st, v) for k, v in kw.items()})
    return XObj(res)


# ------------------------------------------------------------------ built-ins
def builtin(it, st, n, args, kw, node):
    A = lambda k: it.deref(st, args[k])
    if n == "len":
        v = args[0]
        if isinstance(v, Uni):
            v = it.concretise(st, v)
        if isinstance(v, Uni) and (v.a is NONE or v.b is NONE):
            v = v.b if v.a is NONE else v.a
        if isinstance(v, Tup):
            return num(len(v.items))
        if isinstance(v, Lst):
            return length(it.list_term(st, v)) if st.heap[v.id].base is not None else num(len(st.heap[v.id].items))
        if isinstance(v, Dct):
            return num(len(st.heap[v.id].items)) if not st.heap[v.id].open else mk("len", mk("dictref", v.id))
        if isinstance(v, XObj):
            if v.t.op == "shape":
                return mk("rank", v.t.args[0])
            return mk("len", v.t)
        if isinstance(v, Obj) and v.adt is None and v.cls is not None and v.cls.method("__len__"):
            return it.call_fn(st, Fn(v.cls.method("__len__"), v), [], {})
        return length(it.deref(st, v))
    if n == "range":
        a = [it.deref(st, x) for x in args]
        if len(a) == 1:
            return Seq("range", (ZERO, a[0], ONE))
        if len(a) == 2:
            return Seq("range", (a[0], a[1], ONE))
        return Seq("range", tuple(a[:3]))
    if n == "enumerate":
        s0 = args[1] if len(args) > 1 else kw.get("start")
        return Seq("enumerate", (args[0],), it.deref(st, s0) if s0 is not None else None)
    if n == "zip":
        return Seq("zip", tuple(args))
    if n == "reversed":
        return Seq("reversed", (args[0],))
    if n == "map" and len(args) == 2:
        return Seq("map", tuple(args))
    if n in ("list", "tuple", "set", "sorted", "frozenset"):
        if not args:
            return it.mklist(st, ()) if n != "tuple" else Tup(())
        v = args[0]
        d = it.iter_of(st, v)
        if d[0] == "conc" and n != "sorted":
            return Tup(d[1]) if n == "tuple" else it.mklist(st, d[1], None, st.heap[v.id].kind if isinstance(v, Lst) else None)
        t = it.deref(st, v)
        if n == "sorted":
            t = mk("sorted", t)
        k = it.elem_kind(st, v) if isinstance(v, Lst) else (("num",) if rank(t) == 1 else ("arr",))
        return it.mklist(st, (), t, k)
    if n == "dict":
        items = {}
        if args and isinstance(args[0], Dct):
            items.update(st.heap[args[0].id].items)
        for k, v in kw.items():
            items[const(k)] = v
        return it.mkdict(st, items, st.heap[args[0].id].open if args and isinstance(args[0], Dct) else None)
    if n == "sum":
        v = args[0]
        if isinstance(v, Seq):
            v = it.box(st, it.deref(st, v))
        t = to_array(it, st, v)
        s = shape(t)
        if is_bool(t) and (s is None or len(s) == 1):
            r = arr.nnz(t)
        else:
            r = sum_(t, NONE if s is None or len(s) <= 1 else ZERO)
        if len(args) > 1:
            r = add(r, A(1))
        return it.box(st, r)
    if n in ("min", "max"):
        f = arr.minimum if n == "min" else arr.maximum
        if len(args) > 1:
            r = A(0)
            for k in range(1, len(args)):
                r = f(r, A(k))
            return r
        p = pieces(it, st, args[0])
        if p:
            r = p[0]
            for x in p[1:]:
                r = f(r, x)
            return r
        return arr.reduce(n, A(0), NONE)
    if n == "abs":
        return it.box(st, absv(A(0)))
    if n == "int":
        if not args:
            return ZERO
        t = A(0)
        if it.intlike(t):
            return t
        if t.op == "num":
            return num(int(t.args[0]))
        if is_bool(t):
            return ite(t, ONE, ZERO)
        if shape(t) is not None and shape(t) != ():
            t = index_all(t)
        return trunc(t)
    if n == "float":
        t = A(0)
        if t.op == "const" and isinstance(t.args[1], str):
            if t.args[1].lower() in ("inf", "infinity", "+inf"):
                return INF
            if t.args[1].lower() == "-inf":
                return neg(INF)
        return index_all(t) if shape(t) else t
    if n == "bool":
        return it.truth(st, args[0]) if args else FALSE
    if n == "str" or n == "repr":
        return fmt1("%s", A(0)) if args else const("")
    if n == "format":
        return fmt1("{:%s}" % (A(1).args[1] if len(args) > 1 and A(1).op == "const" else ""), A(0))
    if n == "print":
        it.event(st, "print", args=[it.deref(st, a) for a in args], kw=dict(kw))
        return NONE
    if n == "isinstance" or n == "issubclass":
        return isinst(it, st, args[0], args[1])
    if n == "callable":
        v = args[0]
        if isinstance(v, (Fn, Cls, Ext, Meth)):
            return TRUE
        return mk("callable", it.deref(st, v))
    if n == "hasattr":
        return has_attr(it, st, args[0], A(1))
    if n == "getattr":
        k = A(1)
        if k.op == "const":
            c = has_attr(it, st, args[0], k) if len(args) > 2 else TRUE
            if c is FALSE:
                return args[2]
            v = it.getattr(st, args[0], k.args[1])
            return v if c is TRUE else it.merge_val(st, c, v, args[2], st, st)
        return XObj(it.unk("computed attribute"))
    if n == "setattr":
        k = A(1)
        if k.op == "const":
            it.setattr(st, args[0], k.args[1], args[2])
        else:
            it.unk("computed attribute store")
        return NONE
    if n in ("any", "all"):
        v = args[0]
        if isinstance(v, Seq):
            v = it.box(st, it.deref(st, v))
        p = pieces(it, st, v)
        if p is not None:
            bs = [it.truth_term(x) for x in p]
            return (band(*bs) if n == "all" else bor(*bs)) if bs else (TRUE if n == "all" else FALSE)
        t = it.deref(st, v)
        return arr.reduce(n, it.truth_term(t) if not is_bool(t) else t, NONE)
    if n == "type":
        v = args[0]
        if isinstance(v, (Obj, SObj)) and v.cls is not None:
            return Cls(v.cls)
        return XObj(mk("ext", "type", it.deref(st, v)))
    if n == "round":
        return mk("round", A(0)) if A(0).op != "num" else A(0)
    if n == "pow":
        return it.box(st, power(A(0), A(1)))
    if n == "divmod":
        q = floor(div(A(0), A(1)))
        return Tup([q, sub(A(0), mul(A(1), q))])
    if n in ("eval", "exec"):
        it.event(st, "evalcode", code=A(0))
        if it.eval_hook is not None:
            r = it.eval_hook(it, st, A(0))
            if r is not None:
                return r
        return XObj(it.unk("eval", A(0)))
    if n == "open":
        it.event(st, "open", args=[it.deref(st, a) for a in args], kw={a: it.deref(st, b) for a, b in kw.items()})
        return XObj(mk("ext", "file", it.key(node), *[it.deref(st, a) for a in list(args) + [kw[k] for k in ("file", "mode") if k in kw]]))
    if n == "id":
        return it.deref(st, args[0])
    if n == "iter":
        return args[0]
    if n == "slice":
        a = [it.deref(st, x) for x in args]
        if len(a) == 1:
            return Slc(NONE, a[0], NONE)
        return Slc(a[0], a[1], a[2] if len(a) > 2 else NONE)
    if n == "filter":
        return XObj(it.unk("filter"))
    if n in ("Exception", "ValueError", "NotImplementedError", "TimeoutError", "KeyError", "TypeError", "RuntimeError"):
        return XObj(mk("ext", "exception"))
    return XObj(it.unk("builtin " + n))


def isinst(it, st, v, c):
    if isinstance(v, Uni):
        v = it.concretise(st, v)
    if isinstance(v, Uni):
        return ite(v.c, isinst(it, st, v.a, c), isinst(it, st, v.b, c))
    cs = c.items if isinstance(c, Tup) else [c]
    if isinstance(v, (Obj, SObj)) and v.cls is not None and all(isinstance(x, Cls) for x in cs):
        return TRUE if any(v.cls.is_sub(x.cls.name) for x in cs) else FALSE
    if is_adt(v) and all(isinstance(x, Cls) for x in cs):
        r = dist_isinst(it, it.dterm(st, v), cs)
        if r is not None:
            return r
    if all(isinstance(x, Cls) for x in cs) and (isinstance(v, (Ref, Lst, Dct, Tup)) or
                                                isinstance(v, T) and (v.op in ("num", "poly") or is_strterm(v))):
        return FALSE
    names = [x.name for x in cs if isinstance(x, Ext)]
    if len(names) == len(cs):
        t = it.deref(st, v) if not isinstance(v, (Lst, Dct, Tup)) else None
        def one(nm):
            if isinstance(v, Lst):
                return nm == "builtins.list"
            if isinstance(v, Dct):
                return nm == "builtins.dict"
            if isinstance(v, Tup):
                return nm == "builtins.tuple"
            if v is NONE:
                return False
            if is_strterm(t):
                return nm == "builtins.str"
            if isinstance(v, Ref):
                return nm == "numpy.ndarray"
            if t.op == "num":
                if nm in ("builtins.int", "builtins.float"):
                    return (t.args[0].denominator == 1) == (nm == "builtins.int")
                return False
            return None
        rs = [one(x) for x in names]
        if any(r is True for r in rs):
            return TRUE
        if all(r is False for r in rs):
            return FALSE
    return mk("isinstance", it.deref(st, v), mk("key", repr(cs)))


def dist_isinst(it, d, cs):
    if d.op == "ite":
        a, b = dist_isinst(it, d.args[1], cs), dist_isinst(it, d.args[2], cs)
        return ite(d.args[0], a, b) if a is not None and b is not None else None
    c = it.prog.cls(d.args[0]) if d.op == "dist" and isinstance(d.args[0], str) else None
    if c is None:
        return None
    return TRUE if any(c.is_sub(x.cls.name) for x in cs) else FALSE


def has_attr(it, st, o, k):
    if isinstance(o, Obj) and o.adt is None and k.op == "const":
        if k.args[1] in st.heap[o.id] or (o.cls is not None and o.cls.find(k.args[1])):
            return TRUE
        return FALSE
    if isinstance(o, SObj) and k.op == "const":
        if o.cls.find(k.args[1]):
            return TRUE
        if not it.assigned_attr(o.cls, k.args[1]):
            return FALSE
        t = index(st.heap[it.fmap(st, o.cls, k.args[1])], o.id)

        def has(t):
            if t.op == "ite":
                return ite(t.args[0], has(t.args[1]), has(t.args[2]))
            if t.op == "deleted":
                return FALSE
            return TRUE if t.op == "const" or o.id.op == "newobj" and t.op not in ("index", "loopout", "sym") else \
                mk("hasattr", t, k)
        return has(t)
    return mk("hasattr", it.deref(st, o), k)
