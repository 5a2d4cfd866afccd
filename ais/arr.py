"""Array-valued terms: shapes, indexing, masks, reductions, collected loops and their normal forms."""
import re
from fractions import Fraction
from .terms import *
from . import terms as tm

SCALAR_OPS = {"num", "true", "false", "const", "len", "size", "trip", "nnz", "rand01", "idx", "clock", "det",
              "randint", "newobj", "rank", "inf", "nan", "logdet", "argmin1", "randint", "npts", "lsum0", "max0", "nsum"}
BOOLS = {"gt0", "eq0", "eq", "not", "and", "or", "isnan", "isclose", "all", "any", "true", "false", "isnone",
         "isneginf", "isposinf", "in", "truthy", "isinstance", "hasattr", "callable"}
D0 = ZERO
IDX = re.compile(r"i\d+$")


def loopmeta(t):
    """what is known about the value a loop leaves: shape, kind, sign"""
    r = LOOPMETA.get(t.args[0])
    if r is None:
        return {}
    m, outer, md = r
    md = dict(md)
    if "shape" in md:
        sub_ = {a: b for a, b in zip(outer, t.args[2:])}
        sub_[m] = t
        dims = []
        for k, d in enumerate(md["shape"]):
            d = subst(d, sub_)
            if any(x.op == "sym" and str(x.args[0]).startswith("mu") or
                   x.op == "sym" and x not in t.args[2:] and IDX.match(str(x.args[0])) for x in subterms(d)):
                if k:
                    return {k_: v for k_, v in md.items() if k_ != "shape"}
                d = mk("len", t)
            dims.append(d)
        md["shape"] = tuple(dims)
    return md


def is_bool(t):
    if t.op in BOOLS or t.op == "fresh" and t.args[0] is const("bool"):
        return True
    if t.op == "sym":
        return META.get(t, {}).get("kind") == "bool"
    if t.op == "loopout":
        return loopmeta(t).get("kind") == "bool"
    if t.op == "ite":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    if t.op == "index" and META.get(t, {}).get("kind") == "bool":
        return True
    if t.op in ("reshape", "index", "mask", "slice", "col", "at"):
        return is_bool(t.args[0])
    if t.op == "full":
        return is_bool(t.args[1])
    if t.op == "concat":
        return all(is_bool(a) for a in t.args)
    if t.op in ("single", "copy"):
        return is_bool(t.args[0])
    if t.op == "collect":
        return is_bool(t.args[2])
    if t.op in ("store", "fill"):
        return is_bool(t.args[0])
    if t.op == "any_store":
        return is_bool(t.args[0])
    return False


tm.BOOLISH = is_bool
_SH = {}


def shape(t):
    """tuple of dimension terms, or None when unknown"""
    r = _SH.get(t, 0)
    if r == 0:
        _SH[t] = None
        r = _SH[t] = _shape(t)
    return r


def rank(t):
    s = shape(t)
    return None if s is None else len(s)


def bshape(shapes):
    """broadcast"""
    if any(s is None for s in shapes):
        return None
    n = max([len(s) for s in shapes] + [0])
    out = []
    for k in range(n):
        ds = [s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0]
        nd = [d for d in ds if d is not ONE]
        if not nd:
            out.append(ONE)
        else:
            out.append(nd[0])
            if any(d is not nd[0] for d in nd):
                # prefer a symbolic dim that is not 'unknown'; mismatch is reported by callers who care
                pass
    return tuple(out)


def _red_shape(t, axis, keep=FALSE):
    if axis is NONE:
        return ()
    s = shape(t)
    if s is None or not is_num(axis):
        return None
    k = int(axis.args[0])
    if k < 0:
        k += len(s)
    if not 0 <= k < len(s):
        return None
    return s[:k] + s[k + 1:]


def _shape(t):
    if t.op == "opaque" and t.args[0] == "division by zero" and len(t.args) == 2:
        return shape(t.args[1])
    op = t.op
    if op == "sym":
        m = META.get(t, {})
        if "shape" in m:
            return tuple(m["shape"])
        if m.get("kind") in ("num", "bool", "str"):
            return ()
        return None
    if op in SCALAR_OPS:
        return ()
    if op == "where1":
        return (nnz(t.args[0]),)
    if op == "fresh":
        return tuple(t.args[2:])
    if op == "loopout":
        m = loopmeta(t)
        if "shape" in m:
            return m["shape"]
        return () if m.get("kind") in ("num", "bool", "str") else None
    if op == "poly":
        return bshape([shape(a) for m, _ in t.args for a, _e in m])
    if op in ("exp", "log", "abs", "not", "isnan", "copy", "isneginf", "floor", "ceil", "int", "powneg", "gt0", "eq0",
              "fn1", "round", "asum"):
        return shape(t.args[-1] if op == "fn1" else t.args[0])
    if op in ("and", "or", "maximum", "minimum", "clip", "isclose", "eq", "mod", "floordiv"):
        return bshape([shape(a) for a in t.args])
    if op == "ite":
        c, a, b = shape(t.args[0]), shape(t.args[1]), shape(t.args[2])
        if c is not None and len(c) > 0:
            return bshape([c, a, b])
        if a == b:
            return a
        if a is not None and t.args[2] is ZERO:
            return a
        if b is not None and t.args[1] is ZERO:
            return b
        if t.args[1] is EMPTY:
            return None if b is None else (length(t),) + b[1:]
        if t.args[2] is EMPTY:
            return None if a is None else (length(t),) + a[1:]
        if a is not None and b is not None and len(a) == len(b):
            return tuple(x if x is y else mk("ite", t.args[0], x, y) for x, y in zip(a, b))
        return None
    if op == "index":
        m = META.get(t)
        if m and "shape" in m:
            return tuple(m["shape"])
        s = shape(t.args[0])
        si = shape(t.args[1])
        if s is None:
            return None
        if is_bool(t.args[1]):
            return (nnz(t.args[1]),) + s[len(si or (0,)):]
        if si is None:
            return None
        return si + s[1:]
    if op == "mask":
        s, sm = shape(t.args[0]), shape(t.args[1])
        if s is None or sm is None:
            return None if s is None else (nnz(t.args[1]),) + s[1:]
        return (nnz(t.args[1]),) + s[len(sm):]
    if op == "col":
        s = shape(t.args[0])
        return None if s is None or len(s) < 2 else (s[0],) + s[2:]
    if op == "slice":
        s = shape(t.args[0])
        return None if s is None or not s else (length(t),) + s[1:]
    if op == "reshape":
        return rdims(t) if all(isinstance(x, T) for x in t.args[1]) else None
    if op == "full":
        v = shape(t.args[1])
        return tuple(t.args[0])
    if op in ("sum", "prod", "max", "min", "argmax", "argmin", "all", "any", "mean", "std", "logsumexp", "lse"):
        return _red_shape(t.args[0], t.args[1])
    if op == "concat":
        ss = [shape(a) for a in t.args]
        for s in ss:
            if s is not None and len(s):
                return (length(t),) + s[1:]
        return None
    if op == "collect":
        b = t.args[2]
        s = shape(b)
        if s is None:
            return None
        if b.op == "single" or s == ():
            return (length(t),) + s[1:]
        return (length(t),) + s[1:]
    if op == "single":
        s = shape(t.args[0])
        return None if s is None else (ONE,) + s
    if op == "stack":
        s = shape(t.args[2])
        return None if s is None else (t.args[0],) + s
    if op in ("store", "fill", "mstore"):
        return shape(t.args[0])
    if op == "unmask":
        s = shape(t.args[0])
        return None if s is None else (length(t.args[1]),) + s[1:]
    if op == "draw":
        return tuple(t.args[2])
    if op == "logp" or op == "near":
        s = shape(t.args[-1])
        if s is None:
            return None
        return (s[0],) if len(s) == 2 else ()
    if op == "mixnorm" or op == "kwarg":
        return shape(t.args[-1])
    if op == "signs":
        return (power(num(2), t.args[0]), t.args[0])
    if op in ("isposinf",):
        return shape(t.args[0])
    if op == "rand":
        return tuple(t.args[1])
    if op == "transpose":
        s = shape(t.args[0])
        return None if s is None else s[::-1]
    if op == "einsum":
        dims = eindims(t)
        return None if dims is None else tuple(dims[c] for c in einspec_of(t)[1])
    if op == "permute":
        s = shape(t.args[0])
        return None if s is None else tuple(s[int(k)] for k in t.args[1])
    if op == "matmul":
        a, b = shape(t.args[0]), shape(t.args[1])
        if a is None or b is None:
            return None
        if len(a) == 1 and len(b) == 1:
            return ()
        if len(a) == 1:
            return b[:-2] + b[-1:]
        if len(b) == 1:
            return a[:-1]
        lead = a[:-2] if len(a) >= len(b) else b[:-2]
        return lead + (a[-2], b[-1])
    if op == "quad":
        s = shape(t.args[1])
        return None if s is None else s[:-1]
    if op == "diag":
        s = shape(t.args[0])
        if not s:
            return None
        return (s[0], s[0]) if len(s) == 1 else (s[0],)
    if op in ("inv", "chol"):
        return shape(t.args[0])
    if op == "range":
        return (sub(t.args[1], t.args[0]),)
    if op == "empty":
        return (ZERO,)
    if op == "cov":
        s = shape(t.args[0])
        return None if s is None else (s[-1], s[-1])
    if op in ("lsum",):
        return shape(t.args[2])
    if op == "iter":
        return None
    return None


def is_scalar(t):
    return shape(t) == ()


_LEN = {}


def length(t):
    """number of rows, as a term"""
    r = _LEN.get(t)
    if r is None:
        _LEN[t] = mk("len", t)
        r = _LEN[t] = _length(t)
    return r


def _length(t):
    op = t.op
    if op == "empty":
        return ZERO
    if op == "const" and isinstance(t.args[1], str):
        return num(len(t.args[1]))
    if op == "sym":
        m = META.get(t, {})
        if m.get("shape"):
            return m["shape"][0]
        return mk("len", t)
    if op == "loopout":
        s = loopmeta(t).get("shape")
        return s[0] if s else mk("len", t)
    if op == "concat":
        return add(*[piece_len(a) for a in t.args])
    if op == "collect":
        n = piece_len(t.args[2])
        if contains(n, t.args[1]):
            return lsum(t.args[0], t.args[1], n)
        return mul(t.args[0], n)
    if op == "single":
        return ONE
    if op == "stack":
        return t.args[0]
    if op == "ite":
        c = shape(t.args[0])
        if c:
            return c[0]
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if op in ("store", "fill", "copy", "mstore"):
        return length(t.args[0])
    if op == "full":
        return t.args[0][0] if t.args[0] else mk("len", t)
    if op == "reshape":
        return rdims(t)[0] if t.args[1] else mk("len", t)
    if op == "mask":
        return nnz(t.args[1])
    if op == "slice":
        lo, hi, st = t.args[1:4]
        n = length(t.args[0])
        if st is NONE or st is ONE:
            if lo is NONE:
                lo = ZERO
            if hi is NONE:
                hi = n
            if is_num(lo) and lo.args[0] < 0:
                lo = add(n, lo)
            if is_num(hi) and hi.args[0] < 0:
                hi = add(n, hi)
            return sub(hi, lo)
        if is_num(st) and st.args[0] == -1 and lo is NONE and hi is NONE:
            return n
        return mk("len", t)
    s = shape(t)
    if s is not None and len(s):
        return s[0]
    if op == "poly":
        for m, _ in t.args:
            for a, _e in m:
                if shape(a) != ():
                    return length(a)
    return mk("len", t)


def piece_len(b):
    """rows contributed by a concatenated piece"""
    s = shape(b)
    if s == ():
        return ONE
    return length(b)


def where1(m):
    """positions at which a one-dimensional mask is true, in order"""
    if m.op == "full" and m.args[1] is TRUE:
        j = sym("w", kind="num", int=True, nonneg=True, rank=0)
        return stack(m.args[0][0], j, j)
    return mk("where1", m)


def nnz(m):
    s = shape(m)
    if m is TRUE:
        return ONE
    if m is FALSE:
        return ZERO
    if m.op == "reshape":
        return nnz(m.args[0])
    if m.op == "full" and m.args[1] is TRUE:
        return size(m)
    return mk("nnz", m)


def size(t):
    if t is EMPTY:
        return ZERO
    s = shape(t)
    if s is not None:
        out = ONE
        for d in s:
            out = mul(out, d)
        return out
    return mk("size", t)


def npts(x):
    """number of points in an array of points: rows of a matrix, one for a single point"""
    s = shape(x)
    if s is None:
        if x.op == "ite":
            return ite(x.args[0], npts(x.args[1]), npts(x.args[2]))
        return mk("npts", x)
    if len(s) <= 1:
        return ONE
    return s[0]


# ------------------------------------------------------------------ elementwise push-down of selections
def _push(t, f, lead):
    """apply selection f to the atoms of an elementwise term whose leading dimension is `lead`"""
    def go(x):
        s = shape(x)
        if s is not None and (len(s) < full_rank):
            return x
        if x.op == "poly":
            out = ZERO
            for m, c in x.args:
                v = mk("num", c)
                for a, e in m:
                    v = mul(v, power(go(a), mk("num", e)))
                out = add(out, v)
            return out
        if x.op in ("exp", "log", "abs", "not", "gt0", "eq0", "isnan", "isneginf"):
            return rebuild(x.op, [go(x.args[0])])
        if x.op in ("and", "or", "maximum", "minimum"):
            return rebuild(x.op, [go(a) for a in x.args])
        if x.op == "ite":
            c = x.args[0]
            if rank(c) == 1 and full_rank > 1 and s is not None and len(s) == full_rank and length(c) is s[0]:
                c = f(c)              # one condition per row
                if c.op == "full" and c.args[1] in (TRUE, FALSE):
                    c = c.args[1]
                if c in (TRUE, FALSE):
                    return go(x.args[1 if c is TRUE else 2])
                return ite(c, go(x.args[1]), go(x.args[2]))
            r = [go(a) for a in x.args]
            if r[0].op == "full" and r[0].args[1] in (TRUE, FALSE):
                y = r[1 if r[0].args[1] is TRUE else 2]
                if rank(y) and length(y) is r[0].args[0][0]:
                    return y
            return ite(*r)
        if x.op == "full":
            s2 = shape(x)
            if len(s2) == 1:
                return x.args[1] if is_scalar(x.args[1]) else f(x)
        if s is not None and s and s[0] is ONE and lead is not ONE:
            return x
        return f(x)
    full_rank = rank(t)
    if full_rank is None:
        return None
    return go(t)


def index(a, i):
    """a[i] for one (scalar) row index, mask or index array"""
    if a is EMPTY:
        return opaque("index of empty", i)
    if is_bool(i):
        return mask(a, i)
    if a.op == "tuple":
        if is_num(i):
            k = int(i.args[0])
            if -len(a.args) <= k < len(a.args):
                return a.args[k]
        return mk("index", a, i)
    if a.op == "collect" and is_scalar(i):
        tr, ix, b = a.args
        if piece_len(b) is ONE:
            r = subst(b, {ix: i})
            return _row(r)
    if a.op == "stack" and is_scalar(i):
        tr, ix, b = a.args
        return subst(b, {ix: i})
    if a.op == "mask" and is_scalar(i) and rank(a.args[1]) == 1:
        return index(a.args[0], index(where1(a.args[1]), i))
    if a.op == "store" and is_scalar(i):
        b, j, v = a.args
        jt = j if isinstance(j, tuple) else (j,)
        if i is jt[0] or (not is_opaque(i) and not is_opaque(jt[0]) and i.op != "newobj" and equal(i, jt[0])):
            if len(jt) == 1:
                return v
            return store(index(b, i), jt[1:] if len(jt) > 2 else jt[1], v)
        if distinct(i, jt[0]):
            return index(b, i)
        if len(jt) == 1 and jt[0].op == "ite" and i.op == "newobj" and contains_op(jt[0], "newobj"):
            c, x, y = jt[0].args
            return ite(c, index(store(b, x, v), i), index(store(b, y, v), i))
    if i.op == "ite" and i.args[1].op == "newobj" and i.args[2].op == "newobj" and a.op in ("store", "fill"):
        return ite(i.args[0], index(a, i.args[1]), index(a, i.args[2]))
    if a.op == "fill" and is_scalar(i):
        base, loops, key, v = a.args
        if len(key) == 1 and key[0].op == "newobj":
            if i.op == "newobj" and i.args[0].args[0] == key[0].args[0].args[0]:
                m = {x: y for x, y in zip(key[0].args[0].args[1:], i.args[0].args[1:]) if x is not y}
                if all(x in loops[::2] for x in m):
                    return subst(v, m)
            elif not is_opaque(i) and distinct(i, key[0]):
                return index(base, i)
        # key is a tuple of index terms; loops a tuple of (idx, trip) pairs flattened
        if len(key) == 1 and key[0].op == "sym" and key[0] in loops:
            return subst(v, {key[0]: i})
        if len(key) == 2 and key[0] in loops and key[1] in loops:
            j, n = key[1], loops[loops.index(key[1]) + 1]
            return mk("stack", n, j, subst(v, {key[0]: i}))
    if a.op == "concat" and is_num(i):
        k = i.args[0]
        parts = list(a.args) if k >= 0 else list(reversed(a.args))
        k = k if k >= 0 else -k - 1
        for p in parts:
            n = piece_len(p)
            if not is_num(n):
                break
            if k < n.args[0]:
                if shape(p) == ():
                    return p
                if p.op == "single":
                    return p.args[0]
                return index(p, num(k if i.args[0] >= 0 else -k - 1)) if n.args[0] > 1 else _row(p)
            k -= n.args[0]
    if a.op == "single" and is_num(i) and i.args[0] in (0, -1):
        return a.args[0]
    if a.op == "range":
        return add(a.args[0], i)
    if a.op == "ite" and not shape(a.args[0]) and shape(a.args[0]) is not None:
        return ite(a.args[0], index(a.args[1], i), index(a.args[2], i))
    if a.op == "full" and len(a.args[0]) >= 1:
        if len(a.args[0]) == 1:
            return a.args[1]
        if is_scalar(i):
            return full(a.args[0][1:], a.args[1])
    if a.op == "copy":
        return index(a.args[0], i)
    if a.op == "slice" and is_scalar(i) and (a.args[3] is NONE or a.args[3] is ONE):
        lo = ZERO if a.args[1] is NONE else a.args[1]
        if not (is_num(lo) and lo.args[0] < 0) and not (is_num(i) and i.args[0] < 0):
            return index(a.args[0], add(lo, i))
    if a.op == "slice" and is_num(a.args[3]) and a.args[3].args[0] == -1 and a.args[1] is NONE and a.args[2] is NONE:
        return index(a.args[0], sub(sub(length(a.args[0]), ONE), i))
    if a.op in ("poly", "exp", "log", "abs", "not", "gt0", "eq0", "and", "or", "isnan", "maximum", "minimum"):
        s = shape(a)
        if s and is_scalar(i):
            r = _push(a, lambda x: index(x, i), s[0])
            if r is not None:
                return r
    if a.op == "index" and is_scalar(i) and rank(a.args[1]) == 1 and not is_bool(a.args[1]):
        return index(a.args[0], index(a.args[1], i))
    if a.op == "logp" and is_scalar(i) and rank(a.args[1]) == 2:
        return mk("logp", a.args[0], index(a.args[1], i))
    if a.op == "reshape" and is_scalar(i):
        s, o = shape(a), shape(a.args[0])
        if s and o and s[0] is o[0] and len(s) >= 1:
            r = index(a.args[0], i)
            return reshape(r, s[1:])
        if s and o is not None and len(o) == 1 and len(s) == 2 and s[0] is ONE and is_num(i):
            return a.args[0]
    if a.op == "logp" and is_num(i) and rank(a.args[1]) == 1:
        return a
    return _fidx(mk("index", a, i))


def fieldfn(t):
    """for maps from objects to a field: what is known about the field's values"""
    for _ in range(60):
        if t.op == "sym":
            return META.get(t, {}).get("field")
        if t.op == "loopout":
            r = LOOPMETA.get(t.args[0])
            return r[2].get("field") if r else None
        if t.op in ("store", "fill", "mstore"):
            t = t.args[0]
        elif t.op == "ite":
            t = t.args[1]
        else:
            return None
    return None


def _fidx(t):
    if t not in META:
        f = fieldfn(t.args[0])
        if f is not None:
            m = f(t)
            if m:
                META[t] = m
                _SH.pop(t, None)
    return t


def _row(p):
    """the only row of a one-row piece"""
    if shape(p) == ():
        return p
    if p.op == "single":
        return p.args[0]
    if p.op == "reshape":
        s, o = shape(p), shape(p.args[0])
        if s is not None and o is not None and s == (ONE,) + o:
            return p.args[0]
    if p.op == "index" and rank(p) == 1 and rank(p.args[0]) == 2:
        return p
    s = shape(p)
    if s is not None and s and s[0] is ONE:
        return index(p, ZERO)
    return p


def mask(a, m):
    if m is TRUE:
        return a
    if a.op == "full" and len(a.args[0]) == 1 and is_scalar(a.args[1]):
        return full((nnz(m),), a.args[1])
    if m.op == "ite" and rank(m.args[0]) == 0:
        c = m.args[0]
        return ite(c, mask(tm.restrict(a, c, True), m.args[1]), mask(tm.restrict(a, c, False), m.args[2]))
    if a is m and rank(m) == 1:
        return full((nnz(m),), TRUE)
    if m is bnot(a) and rank(a) == 1:
        return full((nnz(m),), FALSE)
    if a.op == "ite" and rank(a.args[0]) == 1 and rank(m) == 1 and all(rank(x) and length(x) is length(m) for x in a.args[1:]):
        c = a.args[0]
        if c is m:
            return mask(a.args[1], m)
        if c is bnot(m):
            return mask(a.args[2], m)
        mc = mask(c, m)
        if mc.op == "full" and mc.args[1] in (TRUE, FALSE):
            return mask(a.args[1 if mc.args[1] is TRUE else 2], m)
        return ite(mc, mask(a.args[1], m), mask(a.args[2], m))
    s = shape(a)
    if s and len(s) >= 1 and a.op in ("poly", "exp", "log", "abs", "not", "gt0", "eq0", "and", "or", "isnan", "ite",
                                      "maximum", "minimum"):
        r = _push(a, lambda x: mask(x, m), s[0])
        if r is not None:
            return restrict_mask(r, m)
    if a.op == "logp" and rank(a.args[1]) == 2:
        return mk("logp", a.args[0], mask(a.args[1], m))
    if a.op == "copy":
        return mask(a.args[0], m)
    return mk("mask", a, m)


def restrict_mask(t, m):
    return t


def slice_(a, lo, hi, st):
    if (lo is NONE or lo is ZERO) and hi is NONE and (st is NONE or st is ONE):
        return a
    if a is EMPTY:
        return EMPTY
    if a.op == "concat" and is_num(lo) and hi is NONE and st in (NONE, ONE) and lo.args[0] >= 0:
        k = lo.args[0]
        parts = list(a.args)
        while parts and is_num(piece_len(parts[0])) and k >= piece_len(parts[0]).args[0]:
            k -= piece_len(parts[0]).args[0]
            parts.pop(0)
        if k == 0:
            return concat(*parts)
    if a.op == "concat" and (lo is NONE or lo is ZERO) and is_num(hi) and hi.args[0] < 0 and st in (NONE, ONE):
        k = -hi.args[0]
        parts = list(a.args)
        while parts and is_num(piece_len(parts[-1])) and k >= piece_len(parts[-1]).args[0] and k > 0:
            k -= piece_len(parts[-1]).args[0]
            parts.pop()
        if k == 0:
            return concat(*parts)
    return mk("slice", a, lo, hi, st)


def col(a, j):
    if a.op == "copy":
        return col(a.args[0], j)
    return mk("col", a, j)


def full(dims, v):
    dims = tuple(dims)
    if not dims:
        return v
    s = shape(v)
    if s is not None and len(s) == len(dims) and all(x is y or equal(x, y) for x, y in zip(s, dims)):
        return v
    if v.op == "full" and is_scalar(v.args[1]):
        return full(dims, v.args[1])
    if dims[0] is ZERO and len(dims) == 1:
        return EMPTY
    return mk("full", dims, v)


def _dim_prod(ds):
    out = ONE
    for d in ds:
        out = mul(out, d)
    return out


def rdims(t):
    """dimensions of a reshape whose remaining one could not be worked out yet"""
    dims = tuple(t.args[1])
    neg1 = [k for k, d in enumerate(dims) if is_num(d) and d.args[0] == -1]
    if len(neg1) != 1:
        return dims
    k = neg1[0]
    return dims[:k] + (div(size(t.args[0]), _dim_prod(dims[:k] + dims[k + 1:])),) + dims[k + 1:]


def reshape(t, dims):
    s = shape(t)
    dims = tuple(dims)
    neg1 = [k for k, d in enumerate(dims) if is_num(d) and d.args[0] == -1]
    if len(neg1) == 1 and s is not None:
        other = _dim_prod([d for k, d in enumerate(dims) if k != neg1[0]])
        tot = _dim_prod(s)
        dims = dims[:neg1[0]] + (div(tot, other),) + dims[neg1[0] + 1:]
    if s is not None and len(s) == len(dims) and all(equal(x, y) for x, y in zip(s, dims)):
        return t
    if t.op == "reshape":
        return reshape(t.args[0], dims)
    if s and len(dims) == len(s) + 1 and dims[0] is ONE and all(equal(x, y) for x, y in zip(s, dims[1:])):
        return single(t)
    if t.op == "full" and is_scalar(t.args[1]):
        return full(dims, t.args[1])
    if s == ():
        return full(dims, t) if dims else t
    return mk("reshape", t, dims)


def flatten(t):
    s = shape(t)
    if s is not None and len(s) == 1:
        return t
    return reshape(t, (num(-1),))


# ------------------------------------------------------------------ reductions
def _axis_size(t, axis):
    s = shape(t)
    if s is None:
        return None
    if axis is NONE:
        return _dim_prod(s)
    k = int(axis.args[0])
    if k < 0:
        k += len(s)
    return s[k] if 0 <= k < len(s) else None


def sum_(t, axis=NONE):
    s = shape(t)
    if s == ():
        return t
    if t is EMPTY:
        return ZERO
    if is_num(axis) and s is not None:
        k = int(axis.args[0])
        if k < 0:
            k += len(s)
        axis = num(k)
        if len(s) == 1 and k == 0:
            axis = NONE
        elif k < len(s) and s[k] is ONE:
            return reshape(t, s[:k] + s[k + 1:])
    if t.op == "full" and axis is NONE:
        return mul(_dim_prod(t.args[0]), t.args[1]) if is_scalar(t.args[1]) else mk("sum", t, axis)
    if t.op == "poly" and s is not None:
        out = ZERO
        ok = True
        for m, c in t.args:
            sc, ar = [], []
            for a, e in m:
                (sc if shape(a) == () else ar).append((a, e))
            coef = from_poly({tuple(sc): c})
            if not ar:
                n = _axis_size(t, axis)
                if n is None:
                    ok = False
                    break
                out = add(out, mul(coef, n))
            else:
                inner = from_poly({tuple(ar): Fraction(1)})
                si = shape(inner)
                if si is None or len(si) != len(s):
                    # broadcast against a higher rank array
                    if si is None or axis is NONE or len(t.args) > 1:
                        ok = False
                        break
                out = add(out, mul(coef, _sum_atom(inner, axis)))
        if ok:
            return out
    return _sum_atom(t, axis)


def _sum_atom(t, axis):
    if t.op == "full" and axis is NONE and is_scalar(t.args[1]):
        return mul(_dim_prod(t.args[0]), t.args[1])
    if t.op == "ite" and shape(t.args[0]) == ():
        return ite(t.args[0], sum_(t.args[1], axis), sum_(t.args[2], axis))
    if t.op == "concat" and axis is NONE:
        return add(*[sum_(a) for a in t.args])
    if t.op == "concat" and axis is ZERO:
        return add(*[(sum_(a, ZERO) if (rank(a) or 0) > 1 else a) for a in t.args])
    if t.op in ("collect", "stack") and axis is NONE:
        return lsum(t.args[0], t.args[1], sum_(t.args[2]))
    return mk("sum", t, axis)


def lsum(trip, i, body):
    """sum over the loop iterations"""
    if body is ZERO or trip is ZERO:
        return ZERO
    if not contains(body, i):
        return mul(trip, body)
    if body.op == "poly":
        out = ZERO
        for m, c in body.args:
            inn, o = [], []
            for a, e in m:
                (inn if contains(a, i) else o).append((a, e))
            inner = from_poly({tuple(inn): Fraction(1)}) if inn else ONE
            f = from_poly({tuple(o): c})
            out = add(out, mul(f, _lsum_atom(trip, i, inner)))
        return out
    return _lsum_atom(trip, i, body)


def _lsum_atom(trip, i, b):
    if not contains(b, i):
        return mul(trip, b)
    if b.op == "ite" and b.args[0] is gt0(i) and not contains(b.args[1], i) and not contains(b.args[2], i):
        # the first one apart
        return add(mul(trip, b.args[1]), ite(gt0(trip), sub(b.args[2], b.args[1]), ZERO))
    l = lift(b, i, trip)
    if l is not None and not contains(l, i):
        sh = shape(l)
        if sh is not None and len(sh) == 1:
            return sum_(l)
        if sh is not None and len(sh) == 2:
            return sum_(l, ZERO)
    i, b = canon(i, b)
    return mk("lsum", trip, i, b)


_HV = []
_HT = {}


def height(t):
    """how deep bound variables nest in t"""
    r = _HT.get(t)
    if r is None:
        r = 0
        if t.op == "sym":
            n = str(t.args[0])
            if n.startswith("$h"):
                r = int(n[2:]) + 1
        else:
            for a in children(t):
                r = max(r, height(a))
        _HT[t] = r
    return r


def canon(i, b):
    """binders over the element-wise form are named by their height: the same sum is the same term"""
    if i.op != "sym" or not str(i.args[0]).startswith("$bv"):
        return i, b
    k = height(b)
    while len(_HV) <= k:
        _HV.append(sym("$h%d" % len(_HV), kind="num", rank=0, int=True, nonneg=True))
    return _HV[k], subst(b, {i: _HV[k]})


def reduce(op, t, axis=NONE):
    s = shape(t)
    if s == () and op in ("max", "min", "prod", "all", "any"):
        return t
    if is_num(axis) and s is not None:
        k = int(axis.args[0])
        if k < 0:
            k += len(s)
        axis = num(k)
        if len(s) == 1 and k == 0:
            axis = NONE
        elif k < len(s) and s[k] is ONE and op in ("max", "min", "prod", "all", "any"):
            return reshape(t, s[:k] + s[k + 1:])
    if op in ("all", "any"):
        if t.op == "not":
            return bnot(reduce("any" if op == "all" else "all", t.args[0], axis))
        if op == "all" and t.op == "and":
            return band(*[reduce("all", a, axis) for a in t.args])
        if op == "any" and t.op == "or":
            return bor(*[reduce("any", a, axis) for a in t.args])
        if t is TRUE or t is FALSE:
            return t
    if op == "prod" and t.op == "poly" and len(t.args) == 1 and s is not None:
        (m, c), = t.args
        n = _axis_size(t, axis)
        if n is not None:
            out = power(num(c), n) if c > 0 else None
            for a, e in m:
                if out is None:
                    break
                sa = shape(a)
                if sa is None:
                    out = None
                    break
                if sa == ():
                    out = mul(out, power(a, mul(n, num(e))))
                    continue
                ax = axis
                if axis is not NONE:
                    k = int(axis.args[0]) - len(s) + len(sa)   # the same axis, counted from the end
                    if k < 0:
                        out = mul(out, power(a, mul(n, num(e)))) if len(sa) < len(s) else None
                        continue
                    if sa[k] is not s[int(axis.args[0])]:
                        out = None
                        break
                    ax = num(k)
                elif sa != s:
                    out = None
                    break
                if a.op == "exp":
                    f = sum_(a.args[0], ax)
                    out = mul(out, exp(scale(f, e)))
                else:
                    out = mul(out, power(reduce("prod", a, ax), num(e)))
            if out is not None:
                return out
    if op == "prod" and t.op == "exp":
        return exp(sum_(t.args[0], axis))
    return mk(op, t, axis)


# ------------------------------------------------------------------ lifting collected loops to whole-array terms
_LIFT = {}


def lift(b, i, trip):
    """whole-array term whose i-th row is b, or None"""
    k = (b, i, trip)
    if k not in _LIFT:
        _LIFT[k] = None
        _LIFT[k] = _lift(b, i, trip)
    return _LIFT[k]


def _lift(b, i, trip):
    if not contains(b, i):
        return b
    if b is i:
        return None
    op = b.op
    if op == "index" and b.args[1] is i and not contains(b.args[0], i):
        n = length(b.args[0])
        if equal(n, trip):
            return b.args[0]
        return None
    if op == "single":
        return lift(b.args[0], i, trip)
    if op == "reshape":
        return lift(b.args[0], i, trip)
    if op == "logp":
        if contains(b.args[0], i):
            return None
        x = lift(b.args[1], i, trip)
        return None if x is None else mk("logp", b.args[0], x)
    if op == "poly":
        out = ZERO
        for m, c in b.args:
            v = mk("num", c)
            for a, e in m:
                x = lift(a, i, trip)
                if x is None:
                    return None
                v = mul(v, power(x, mk("num", e)))
            out = add(out, v)
        return out
    if op in ("exp", "log", "abs", "not", "gt0", "eq0", "isnan", "and", "or", "maximum", "minimum", "isneginf"):
        xs = [lift(a, i, trip) for a in b.args]
        if any(x is None for x in xs):
            return None
        return rebuild(op, xs)
    if op == "ite":
        xs = [lift(a, i, trip) for a in b.args]
        if any(x is None for x in xs):
            return None
        return ite(*xs)
    return None


def collect(trip, i, body):
    if trip is ZERO or body is EMPTY:
        return EMPTY
    l = lift(body, i, trip)
    if l is not None and contains(body, i):
        return l
    if shape(body) == () or body.op == "single" or (body.op == "full" and body.args[0][0] is ONE):
        b = body.args[0] if body.op == "single" else body
        if body.op == "full":
            b = full(body.args[0][1:], body.args[1])
        return stack(trip, i, b)
    return mk("collect", trip, i, body)


def stack(trip, i, body):
    l = lift(body, i, trip)
    if l is not None and contains(body, i):
        return l
    if not contains(body, i) and shape(body) == ():
        return full((trip,), body)
    return mk("stack", trip, i, body)


def single(v):
    if v.op == "full" and is_scalar(v.args[1]):
        return full((ONE,) + tuple(v.args[0]), v.args[1])
    if shape(v) == () and v.op != "const":
        return full((ONE,), v)
    return mk("single", v)


def clip(x, lo, hi):
    return mk("clip", x, lo, hi)


def einspec(spec, ts):
    """'ij,jk->ik' as ((input letters, ...), output letters); None when it is not that plain"""
    if not isinstance(spec, str) or "." in spec:
        return None
    spec = spec.replace(" ", "")
    lhs, arrow, out = spec.partition("->")
    ins = lhs.split(",")
    if not arrow:
        out = "".join(sorted(c for c in set(lhs) - {","} if lhs.count(c) == 1))
    if len(ins) != len(ts) or any(rank(t) != len(i) for i, t in zip(ins, ts)) or not set(out) <= set(lhs):
        return None
    return tuple(ins), out


def einsum(sp, ts):
    r = mk("einsum", mk("key", repr(sp)), *ts)
    _EIN[r] = sp
    return r


_EIN = {}


def einspec_of(t):
    sp = _EIN.get(t)
    if sp is None:
        import ast
        sp = _EIN[t] = ast.literal_eval(t.args[0].args[0])
    return sp


def eindims(t):
    """the length of every letter, None when unknown"""
    ins, _out = einspec_of(t)
    dims = {}
    for i, a in zip(ins, t.args[1:]):
        s = shape(a)
        if s is None:
            return None
        for c, d in zip(i, s):
            if dims.get(c, ONE) is ONE:
                dims[c] = d
    return dims


def permute(t, p):
    """axes reordered"""
    p = tuple(p)
    if p == tuple(range(len(p))):
        return t
    if p == (1, 0):
        return transpose(t)
    if t.op == "permute" and len(t.args[1]) == len(p) and all(isinstance(k, int) for k in t.args[1]):
        return permute(t.args[0], tuple(t.args[1][k] for k in p))
    return mk("permute", t, p)


def transpose(t):
    if t.op == "transpose":
        return t.args[0]
    if rank(t) in (0, 1):
        return t
    return mk("transpose", t)


def matmul(a, b):
    sa, sb = shape(a), shape(b)
    if sa is not None and sb is not None and len(sa) == 1 and len(sb) == 1:
        return sum_(mul(a, b))
    # (x^T M) x -> quad(M, x)
    def unt(t):
        if t.op in ("transpose", "permute"):
            return t.args[0]
        return None
    if a.op == "matmul":
        l, m = a.args
        if unt(l) is b or (rank(b) == 1 and l is b):
            return reshape_like_scalar(mk("quad", m, _vec(b)))
    if a.op == "poly" or b.op == "poly":
        pass
    return mk("matmul", a, b)


def _vec(b):
    """strip the trailing column axis added by reshape(n, d, 1)"""
    if b.op == "reshape":
        s = shape(b)
        if s is not None and s[-1] is ONE and len(s) == 3:
            return reshape(b.args[0], s[:-1])
    return b


def reshape_like_scalar(t):
    return t


def store(a, i, v):
    """a with a[i] = v (functional update).  i: scalar term, mask, or tuple of terms"""
    if isinstance(i, tuple) and len(i) == 1:
        i = i[0]
    if not isinstance(i, tuple) and is_bool(i) and shape(i) != ():
        return mstore(a, i, v)
    it = i if isinstance(i, tuple) else (i,)
    if v.op == "store" and v.args[0] is index(a, it[0]) and len(it) == 1:
        j = v.args[1] if isinstance(v.args[1], tuple) else (v.args[1],)
        return store(a, it + j, v.args[2])
    if a.op == "store" and a.args[1] is i:
        return mk("store", a.args[0], i, v)
    return mk("store", a, i, v)


def distinct(i, j):
    """the two index terms certainly differ"""
    if i is j:
        return False
    if i.op == "ite" and contains_op(i, "newobj"):
        return distinct(i.args[1], j) and distinct(i.args[2], j)
    if j.op == "ite" and contains_op(j, "newobj"):
        return distinct(i, j.args[1]) and distinct(i, j.args[2])
    if i.op == "newobj" or j.op == "newobj":
        if i.op == "newobj" and j.op == "newobj":
            x, y = i.args[0].args, j.args[0].args
            return x[0] != y[0] or len(x) != len(y) or any(distinct(p, q) for p, q in zip(x[1:], y[1:]))
        return older(*((j, i) if i.op == "newobj" else (i, j)))
    d = sub(i, j)
    return is_num(d) and d is not ZERO


def older(o, n):
    """o names something that existed before the object n was made"""
    if contains_op(o, "newobj"):
        return False
    if not is_opaque(o):
        return True
    nm, idx = n.args[0].args[0], n.args[0].args[1:]
    made = int(nm.rsplit("~", 1)[1]) if "~" in nm else 0
    if not all(r.startswith("loopout:") for r in opaque_reasons(o)):
        return False
    for s in subterms(o):
        if s.op == "loopout":
            if s.args[1] in idx:          # the state at the start of the iteration n is made in
                continue
            end = LOOPEND.get(str(s.args[0]).split(":")[0])
            if end is None or end >= made or not all(x in idx for x in s.args[2:] if x.op == "sym"):
                return False
    return True


def contains_op(t, op):
    return any(s.op == op for s in subterms(t))


def fill(base, loops, key, v):
    """base with base[key] = v for every combination of the loop indices; loops = (idx, trip, idx, trip, ...)"""
    s = shape(base)
    idxs = {loops[k]: loops[k + 1] for k in range(0, len(loops), 2)}
    if len(key) == 1 and is_bool(key[0]) and shape(key[0]):
        return mk("fill", base, loops, key, v)
    if all(k in idxs for k in key) and len(set(key)) == len(key) == len(idxs):
        if (s is not None and len(s) >= len(key) and all(equal(s[n], idxs[k]) for n, k in enumerate(key))) or \
                (len(key) == 1 and equal(length(base), idxs[key[0]])):
            r = v
            for k in reversed(key):
                r = stack(idxs[k], k, r)
            return r
    if len(key) == 1 and len(idxs) == 2 and s:
        # rows numbered through by two loops
        for i, k in (tuple(idxs), tuple(idxs)[::-1]):
            if key[0] is add(mul(idxs[k], i), k) and equal(s[0], mul(idxs[i], idxs[k])):
                return collect(idxs[i], i, stack(idxs[k], k, v))
    return mk("fill", base, loops, key, v)


def mstore(a, m, v):
    """masked store -> elementwise selection"""
    m0 = strip_shape(m)
    if m0.op == "ite" and rank(m0.args[0]) == 0:
        c = m0.args[0]
        return ite(c, mstore(tm.restrict(a, c, True), m0.args[1], tm.restrict(v, c, True)),
                   mstore(tm.restrict(a, c, False), m0.args[2], tm.restrict(v, c, False)))
    if m0 is TRUE and shape(v) and shape(v) == shape(a):
        return v
    v = unmask(v, m)
    if v is None:
        return mk("mstore", a, m, opaque("masked store"))
    base = a
    return ite(m, v, base) if True else None


def strip_shape(m):
    while m.op == "reshape":
        m = m.args[0]
    return m


def unmask(v, m):
    """v has one row per selected element: the whole-array term it is the selection of"""
    m0 = strip_shape(m)
    rows = nnz(m0)

    def go(x):
        s = shape(x)
        if x.op == "mask" and strip_shape(x.args[1]) is m0:
            return x.args[0]
        if s == ():
            return x
        if x.op == "full" and len(x.args[0]) >= 1 and x.args[0][0] is rows:
            return full((length(m0),) + x.args[0][1:], x.args[1])
        if s is not None and not any(y is rows for y in s):
            return x
        if x.op == "poly":
            return add(*[scale(mul(*[power(go(a), num(e)) for a, e in mm]) if mm else ONE, c) for mm, c in x.args])
        if x.op in ROWWISE:
            return rebuild(x.op, [go(a) if isinstance(a, T) else a for a in x.args])
        if x.op == "logp" and s is not None and len(s) == 1:
            return mk("logp", x.args[0], go(x.args[1]))
        if x.op == "reshape" and s is not None and s[0] is rows:
            return reshape(go(x.args[0]), (length(m0),) + tuple(x.args[1][1:]))
        if x.op in ("sum", "prod", "max", "min", "all", "any") and is_num(x.args[1]) and x.args[1].args[0] > 0:
            return rebuild(x.op, [go(x.args[0]), x.args[1]])
        if x.op == "matmul" and (rank(x.args[0]) or 0) == 2:
            sb = shape(x.args[1])
            if sb is not None and not any(y is rows for y in sb):
                return matmul(go(x.args[0]), x.args[1])
        if x.op == "einsum":
            ins, out = einspec_of(x)
            c = out[:1]
            if c and all(i.count(c) <= 1 for i in ins) and out.count(c) == 1 and \
                    all((shape(a) or ())[i.index(c)] is rows for i, a in zip(ins, x.args[1:]) if c in i and shape(a)):
                return einsum((ins, out), [go(a) if c in i else a for i, a in zip(ins, x.args[1:])])
        return mk("unmask", x, m0)
    return go(v)


REBUILD.update({
    "index": lambda a, i: index(a, i), "mask": lambda a, m: mask(a, m), "sum": lambda a, x: sum_(a, x),
    "reshape": lambda a, d: reshape(a, d), "len": lambda a: length(a), "size": lambda a: size(a),
    "npts": lambda a: npts(a), "nnz": lambda a: nnz(a), "collect": lambda t, i, b: collect(t, i, b),
    "stack": lambda t, i, b: stack(t, i, b), "lsum": lambda t, i, b: lsum(t, i, b),
    "slice": lambda a, l, h, s: slice_(a, l, h, s), "col": lambda a, j: col(a, j),
    "all": lambda a, x: reduce("all", a, x), "any": lambda a, x: reduce("any", a, x),
    "prod": lambda a, x: reduce("prod", a, x), "max": lambda a, x: reduce("max", a, x),
    "min": lambda a, x: reduce("min", a, x), "matmul": lambda a, b: matmul(a, b),
    "transpose": lambda a: transpose(a), "fill": lambda b, l, k, v: fill(b, l, k, v), "store": lambda a, i, v: store(a, i, v),
    "maximum": lambda a, b: maximum(a, b), "minimum": lambda a, b: minimum(a, b),
})


def maximum(a, b):
    if is_num(a) and is_num(b):
        return a if a.args[0] >= b.args[0] else b
    if a is b:
        return a
    if a is ZERO and tm._nonneg(b):
        return b
    if b is ZERO and tm._nonneg(a):
        return a
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("maximum", x, y)


def minimum(a, b):
    if is_num(a) and is_num(b):
        return a if a.args[0] <= b.args[0] else b
    if a is b:
        return a
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("minimum", x, y)


# ------------------------------------------------------------------ erasure of layout for value comparison
_ER = {}


def erase(t):
    """forget layout (reshapes, copies, single rows): what remains is the value per point"""
    r = _ER.get(t)
    if r is None:
        def f(x):
            if x.op == "reshape" or x.op == "copy" or x.op == "single":
                return erase(x.args[0])
            if x.op == "full":
                return erase(x.args[1])
            return x if x.op in ("draw", "dist") else None
        r = mapterm(t, f)
        # iterate: removing layout can enable further simplification
        for _ in range(3):
            r2 = mapterm(r, f)
            if r2 is r:
                break
            r = r2
        _ER[t] = r
    return r


def _arraycond(c):
    s = shape(c)
    return s is not None and len(s) > 0


ARRAYCOND[:] = [_arraycond]
