"""Elementwise view of array terms: el(t, idx) is the scalar term at one index.

Layout operations (reshape, transpose, concat, slices, broadcasting, matrix products over known sizes, reductions over
known sizes) are resolved, so two terms that describe the same numbers in different layouts get the same scalar terms."""
import itertools
from fractions import Fraction
from .terms import *
from . import terms as tm
from . import arr

MAXEXP = 8


class Unknown(Exception):
    pass


_bv = [sym("$bv%d" % k, kind="num", rank=0, int=True, nonneg=True) for k in range(12)]


CLOSED = {"num", "poly", "exp", "log", "abs", "gt0", "eq0", "and", "or", "not", "maximum", "minimum", "true", "false"}


def at(base, *idx):
    if not idx:
        return base
    t = mk("at", base, *idx)
    m = META.get(base, {})
    if m.get("sym2") and len(idx) == 2 and is_num(idx[0]) and is_num(idx[1]) and idx[0].args[0] > idx[1].args[0]:
        t = mk("at", base, idx[1], idx[0])
    if t not in META:
        d = {"rank": 0}
        if m.get("pos"):
            d["pos"] = True
        if m.get("nonneg"):
            d["nonneg"] = True
        if m.get("kind") == "bool" or m.get("ekind") == "bool":
            d["kind"] = "bool"
        if d.get("pos") or d.get("nonneg"):
            META[t] = d
    return t


def shp(t):
    s = arr.shape(t)
    if s is None:
        raise Unknown("shape of " + t.op)
    return tuple(s)


def _isone(d):
    return d is ONE


class El:
    def __init__(self, sub=None):
        self.cache = {}
        self.sub = sub or {}
        self.depth = 0

    def __call__(self, t, idx=()):
        k = (t, tuple(idx), self.depth)
        if k in self.cache:
            return self.cache[k]
        r = self._el(t, tuple(idx))
        if r in self.sub:
            r = self.sub[r]
        if r.op in ("gt0", "eq0", "and", "or", "not") and all(x.op in CLOSED for x in subterms(r)):
            from . import wit
            try:
                r = TRUE if wit.Point(0)(r) else FALSE
            except (wit.Undef, ValueError, TypeError, ZeroDivisionError, OverflowError):
                pass
        self.cache[k] = r
        return r

    def shp(self, t):
        return tuple(self.dim(d) for d in shp(t))

    def dim(self, d):
        """a dimension; counts of selected rows are resolved when every row is"""
        if is_num(d) or d.op == "sym":
            return d
        if d.op == "nnz":
            try:
                return num(len(self.sel(d.args[0])))
            except Unknown:
                return d
        if d.op == "poly":
            return tm.mapterm(d, lambda x: self.dim(x) if x.op == "nnz" else None)
        return d

    def sel(self, m):
        """the index tuples a mask of known size selects"""
        k = ("sel", m, self.depth)
        if k in self.cache:
            return self.cache[k]
        s = self.shp(m)
        if not all(is_num(d) for d in s) or not 1 <= len(s) <= 2:
            raise Unknown("mask of unknown size")
        out = []
        ix = [(a,) for a in range(int(s[0].args[0]))]
        if len(s) == 2:
            ix = [(a, b) for (a,) in ix for b in range(int(s[1].args[0]))]
        if len(ix) > 4 * MAXEXP:
            raise Unknown("long mask")
        for q in ix:
            v = self(m, tuple(num(z) for z in q))
            if v is TRUE:
                out.append(q)
            elif v is not FALSE:
                raise Unknown("mask not resolved")
        self.cache[k] = out
        return out

    # broadcasting: trailing alignment, size-one dimensions repeat
    def b(self, t, idx):
        s = self.shp(t)
        if len(s) > len(idx):
            if all(_isone(d) for d in s[:len(s) - len(idx)]):
                idx = (ZERO,) * (len(s) - len(idx)) + tuple(idx)
            else:
                raise Unknown("rank")
        idx = tuple(idx)[len(idx) - len(s):]
        return self(t, tuple(ZERO if _isone(d) else i for d, i in zip(s, idx)))

    def over(self, d, f, comb, symb):
        """combine f(k) for k < d"""
        if is_num(d):
            n = int(d.args[0])
            if n > MAXEXP:
                raise Unknown("long axis")
            return comb([f(num(k)) for k in range(n)])
        v = _bv[self.depth]
        self.depth += 1
        try:
            body = f(v)
        finally:
            self.depth -= 1
        return symb(d, v, body)

    def mat(self, t):
        s = self.shp(t)
        if len(s) != 2:
            raise Unknown("matrix")
        if not all(is_num(d) and d.args[0] <= 4 for d in s):
            return t
        return mk("mat", s[0], s[1], *[self(t, (num(i), num(j))) for i in range(int(s[0].args[0])) for j in range(int(s[1].args[0]))])

    def _el(self, t, idx):
        op = t.op
        a = t.args
        if op in ("num", "true", "false", "const", "inf", "nan"):
            return t
        if op == "sym" or op == "at":
            return at(t, *idx)
        if op == "poly":
            out = ZERO
            for m, c in a:
                v = num(c)
                for x, e in m:
                    v = mul(v, power(self.b(x, idx), num(e)))
                out = add(out, v)
            return out
        if op == "exp":
            return exp(self(a[0], idx))
        if op == "log":
            return log(self(a[0], idx))
        if op == "abs":
            return absv(self(a[0], idx))
        if op == "not":
            return bnot(self.b(a[0], idx))
        if op == "and":
            return band(*[self.b(x, idx) for x in a])
        if op == "or":
            return bor(*[self.b(x, idx) for x in a])
        if op == "gt0":
            return gt0(self(a[0], idx))
        if op == "eq0":
            return eq(self(a[0], idx), ZERO)
        if op == "eq":
            return eq(self.b(a[0], idx), self.b(a[1], idx))
        if op == "ite":
            c = self.b(a[0], idx)
            if c is TRUE:
                return self.b(a[1], idx)
            if c is FALSE:
                return self.b(a[2], idx)
            return ite(c, self.b(a[1], idx), self.b(a[2], idx))
        if op in ("isnan", "isneginf", "isposinf", "floor", "ceil", "int", "round"):
            return rebuild(op, [self(a[0], idx)])
        if op == "isclose":
            x, y = sorted((self.b(a[0], idx), self.b(a[1], idx)), key=tm._akey)
            if x is y:
                return TRUE
            return mk("isclose", x, y)
        if op in ("maximum", "minimum"):
            return self.mm(op, [self.b(x, idx) for x in a])
        if op == "clip":
            x, lo, hi = [self.b(z, idx) for z in a]
            return self.mm("minimum", [self.mm("maximum", [x, lo]), hi])
        if op == "copy":
            return self(a[0], idx)
        if op == "powneg":
            return rebuild(op, [self.b(a[0], idx)] + [self.b(z, idx) if isinstance(z, T) else z for z in a[1:]])
        if op == "full":
            return self.b(a[1], idx)
        if op == "single":
            return self(a[0], idx[1:])
        if op == "reshape":
            return self(a[0], self.relayout(self.shp(a[0]), self.shp(t), idx))
        if op == "concat":
            i0 = idx[0]
            off = ZERO
            for k, x in enumerate(a):
                n = arr.length(x) if arr.rank(x) != 0 else ONE
                pos = sub(i0, off)
                if k == len(a) - 1:
                    return self(x, (pos,) + idx[1:]) if arr.rank(x) != 0 else self(x)
                c = gt0(sub(n, pos))
                if c is TRUE:
                    return self(x, (pos,) + idx[1:]) if arr.rank(x) != 0 else self(x)
                if c is not FALSE:
                    rest = concat(*a[k + 1:])
                    return ite(c, self(x, (pos,) + idx[1:]) if arr.rank(x) != 0 else self(x), self(rest, (sub(pos, n),) + idx[1:]))
                off = add(off, n)
        if op == "index":
            si = self.shp(a[1])
            if arr.is_bool(a[1]):
                return self.picked(t, a[0], a[1], idx)
            i = self(a[1], idx[:len(si)])
            if is_num(i) and i.args[0] < 0:
                i = add(arr.length(a[0]), i)
            return self(a[0], (i,) + idx[len(si):])
        if op == "mask":
            return self.picked(t, a[0], a[1], idx)
        if op == "unmask":
            s = self.sel(a[1])
            q = tuple(int(z.args[0]) for z in idx[:1] if is_num(z))
            if len(q) != 1:
                raise Unknown("row of a selection")
            if s and len(s[0]) == 2 and all(z[1] == 0 for z in s) and _isone(self.shp(a[1])[1]):
                s = [z[:1] for z in s]
            return self(a[0], (num(s.index(q)),) + idx[1:]) if q in s else mk("undef")
        if op == "col":
            j = a[1]
            j = self(j) if isinstance(j, T) else num(j)
            if is_num(j) and j.args[0] < 0:
                j = add(self.shp(a[0])[1], j)
            return self(a[0], (idx[0], j) + idx[1:])
        if op == "slice":
            lo, hi, st = a[1:4]
            n = arr.length(a[0])
            stp = 1 if st is NONE else (int(st.args[0]) if is_num(st) else None)
            if stp is None:
                raise Unknown("slice step")
            if lo is NONE:
                lo = ZERO if stp > 0 else sub(n, ONE)
            elif is_num(lo) and lo.args[0] < 0:
                lo = add(n, lo)
            return self(a[0], (add(lo, scale(idx[0], stp)),) + idx[1:])
        if op == "transpose":
            return self(a[0], idx[::-1])
        if op == "einsum":
            ins, out = arr.einspec_of(t)
            dims = arr.eindims(t)
            if dims is None:
                raise Unknown("einsum of unknown shapes")
            free = dict(zip(out, idx))
            bound = [c for c in dict.fromkeys("".join(ins)) if c not in free]
            if any(not is_num(dims[c]) for c in bound):
                raise Unknown("einsum over unknown lengths")
            total = ZERO
            for vals in itertools.product(*[range(int(dims[c].args[0])) for c in bound]):
                at_ = {**free, **dict(zip(bound, map(num, vals)))}
                total = add(total, mul(*[self.b(x, tuple(at_[c] for c in i)) for i, x in zip(ins, a[1:])]))
            return total
        if op == "permute":
            out = [None] * len(idx)
            for k, ax in enumerate(a[1]):
                ax = int(ax.args[0]) if isinstance(ax, T) else int(ax)
                out[ax] = idx[k]
            return self(a[0], tuple(out))
        if op == "matmul":
            sa, sb = self.shp(a[0]), self.shp(a[1])
            if len(sa) == 1 and len(sb) == 1:
                fa, fb, d = (lambda k: (k,)), (lambda k: (k,)), sa[0]
            elif len(sa) == 1:
                fa, fb, d = (lambda k: (k,)), (lambda k: idx[:-1] + (k,) + idx[-1:]), sa[0]
            elif len(sb) == 1:
                fa, fb, d = (lambda k: idx + (k,)), (lambda k: (k,)), sa[-1]
            else:
                d = sa[-1]
                lead = idx[:-2]
                fa = lambda k: lead[len(lead) - (len(sa) - 2):] + (idx[-2], k)
                fb = lambda k: lead[len(lead) - (len(sb) - 2):] + (k, idx[-1])
            return self.over(d, lambda k: mul(self.b(a[0], fa(k)), self.b(a[1], fb(k))), lambda l: add(*l) if l else ZERO, arr.lsum)
        if op == "quad":
            d = self.shp(a[1])[-1]
            if not is_num(d):
                A = self.canon(a[0])
                return mk("quadat", A, self.canon_row(a[1], idx))
            n = int(d.args[0])
            v = [self.b(a[1], idx + (num(k),)) for k in range(n)]
            out = ZERO
            for j in range(n):
                for k in range(n):
                    out = add(out, mul(v[j], self(a[0], (num(j), num(k))), v[k]))
            return out
        if op == "diag":
            s = self.shp(a[0])
            if len(s) == 2:
                return self(a[0], (idx[0], idx[0]))
            return ite(eq(idx[0], idx[1]), self(a[0], (idx[0],)), ZERO)
        if op == "chol":
            # lower triangular L with L L' = M
            if len(idx) != 2 or not all(is_num(q) for q in idx) or max(q.args[0] for q in idx) > 3:
                raise Unknown("factor of a matrix")
            i, j = (int(q.args[0]) for q in idx)
            if j > i:
                return ZERO
            lower = lambda p, q: self(t, (num(p), num(q)))
            rest = sub(self(a[0], (num(i), num(j))), add(ZERO, *[mul(lower(i, k), lower(j, k)) for k in range(j)]))
            return power(rest, num(Fraction(1, 2))) if i == j else div(rest, lower(j, j))
        if op == "inv":
            M = self.mat(a[0])
            if M.op == "mat" and M.args[0] is ONE:
                return power(M.args[2], num(-1))
            i, j = idx
            if M.op == "mat":
                n = int(M.args[0].args[0])
                e = M.args[2:]
                if all(e[r * n + c] is ZERO for r in range(n) for c in range(n) if r != c):
                    return power(e[int(i.args[0]) * n + int(i.args[0])], num(-1)) if i is j else ZERO
                if all(e[r * n + c] is e[c * n + r] for r in range(n) for c in range(r)) and is_num(i) and is_num(j) and i.args[0] > j.args[0]:
                    i, j = j, i
            return mk("at", mk("inv", M), i, j)
        if op == "det":
            M = self.mat(a[0])
            if M.op == "mat":
                n = int(M.args[0].args[0])
                e = M.args[2:]
                if n == 1:
                    return e[0]
                if all(e[r * n + c] is ZERO for r in range(n) for c in range(n) if r != c):
                    return mul(*[e[r * n + r] for r in range(n)])
            return mk("det", M)
        if op in ("sum", "prod", "all", "any", "max", "min", "mean", "logsumexp", "lse"):
            return self.red(op, a[0], a[1], idx)
        if op == "lsum":
            return self.over(a[0], lambda k: self.b(subst(a[2], {a[1]: k}), idx), lambda l: add(*l) if l else ZERO, arr.lsum)
        if op == "stack":
            return self(subst(a[2], {a[1]: idx[0]}), idx[1:])
        if op == "collect":
            body = a[2]
            n = arr.length(body) if arr.rank(body) != 0 else ONE
            if arr.rank(body) == 0:
                return self(subst(body, {a[1]: idx[0]}))
            if n is ONE:
                return self(subst(body, {a[1]: idx[0]}), (ZERO,) + idx[1:])
            raise Unknown("collected pieces")
        if op == "store":
            c = eq(idx[0], self(a[1])) if arr.rank(a[1]) == 0 else None
            if c is None:
                raise Unknown("store")
            return ite(c, self.b(a[2], idx[1:]), self(a[0], idx)) if c not in (TRUE, FALSE) else \
                (self.b(a[2], idx[1:]) if c is TRUE else self(a[0], idx))
        if op == "logp":
            return mk("at", mk("logp", a[0], a[1]), *idx) if idx else t
        if op == "near":
            return mk("at", t, *idx) if idx else t
        if op in ("draw", "rand"):
            return at(t, *idx)
        if op == "range":
            return add(a[0], idx[0])
        if op == "signs":
            if all(is_num(i) for i in idx) and is_num(a[0]) and len(idx) == 2:
                return ONE if (int(idx[0].args[0]) >> (int(a[0].args[0]) - 1 - int(idx[1].args[0]))) & 1 else num(-1)
            raise Unknown("signs")
        if op == "nnz":
            return self.dim(t)
        if op in ("len", "size", "npts", "trip"):
            return t
        if not idx:
            return self.canon(t)
        if arr.shape(t) is None:
            raise Unknown(op)
        return at(t, *idx)

    def picked(self, t, x, m, idx):
        try:
            s = self.sel(m)
        except Unknown:
            return at(t, *idx)
        if not is_num(idx[0]):
            raise Unknown("row of a selection")
        k = int(idx[0].args[0])
        if k < 0:
            k += len(s)
        if not 0 <= k < len(s):
            raise Unknown("row outside a selection")
        return self(x, tuple(num(z) for z in s[k]) + idx[1:])

    def mm(self, op, xs):
        out = []
        for x in xs:
            if x.op == op:
                out.extend(x.args)
            else:
                out.append(x)
        # drop dominated entries
        keep = []
        for k, x in enumerate(out):
            dom = False
            for l, y in enumerate(out):
                if k == l:
                    continue
                d = sub(y, x) if op == "maximum" else sub(x, y)
                if gt0(d) is TRUE or (d is ZERO and l < k) or (gt0(neg(d)) is FALSE and (d is not ZERO) and not (gt0(d) is FALSE)):
                    dom = True
                    break
            if not dom:
                keep.append(x)
        if len(keep) == 1:
            return keep[0]
        return mk(op, *sorted(set(keep), key=tm._akey))

    def canon(self, t):
        return t

    def canon_row(self, t, idx):
        return at(t, *idx)

    def red(self, op, x, axis, idx):
        s = self.shp(x)
        if axis is NONE:
            axes = list(range(len(s)))
        elif is_num(axis):
            k = int(axis.args[0])
            axes = [k + len(s) if k < 0 else k]
        elif axis.op == "tuple":
            axes = []
            for z in axis.args:
                k = int(z.args[0])
                axes.append(k + len(s) if k < 0 else k)
        else:
            raise Unknown("axis")
        axes = sorted(axes)

        def rec(pos, full):
            if pos == len(axes):
                it = iter(idx)
                return self(x, tuple(full[k] if k in full else next(it) for k in range(len(s))))
            d = s[axes[pos]]
            if op in ("sum", "mean"):
                return self.over(d, lambda k: rec(pos + 1, {**full, axes[pos]: k}), lambda l: add(*l) if l else ZERO, arr.lsum)
            if op == "prod":
                def symprod(d, v, body):
                    return exp(arr.lsum(d, v, log(body)))
                return self.over(d, lambda k: rec(pos + 1, {**full, axes[pos]: k}), lambda l: mul(*l) if l else ONE, symprod)
            if op in ("all", "any"):
                return self.over(d, lambda k: rec(pos + 1, {**full, axes[pos]: k}), lambda l: (band if op == "all" else bor)(*l),
                                 lambda d, v, body: body if body in (TRUE, FALSE) else mk("forall" if op == "all" else "exists", d, arr.canon(v, body)[1]))
            if op in ("max", "min"):
                nm = "maximum" if op == "max" else "minimum"
                return self.over(d, lambda k: rec(pos + 1, {**full, axes[pos]: k}), lambda l: self.mm(nm, l),
                                 lambda d, v, body: body if not contains(body, v) else mk(op + "over", d, arr.canon(v, body)[1]))
            if op in ("logsumexp", "lse"):
                raise Unknown(op)
            raise Unknown(op)
        r = rec(0, {})
        if op == "mean":
            n = ONE
            for k in axes:
                n = mul(n, s[k])
            r = div(r, n)
        return r

    def relayout(self, src, dst, idx):
        """index into an array of shape src, seen through shape dst"""
        S = [(k, d) for k, d in enumerate(src) if not _isone(d)]
        D = [(k, d) for k, d in enumerate(dst) if not _isone(d)]
        if len(S) == len(D) and all(equal(x[1], y[1]) or (is_num(y[1]) and y[1].args[0] == -1) for x, y in zip(S, D)):
            out = [ZERO] * len(src)
            for (k, _), (l, _d) in zip(S, D):
                out[k] = idx[l]
            return tuple(out)
        if not S:
            return tuple(ZERO for _ in src)
        # mixed: flat row-major position, unravelled (numeric trailing sizes only)
        flat = ZERO
        for k, d in enumerate(dst):
            flat = add(mul(flat, d) if k else ZERO, idx[k])
        out = []
        if not all(is_num(d) for d in src[1:]):
            raise Unknown("reshape")
        if not is_num(flat):
            # symbolic leading index: needs the trailing sizes to split exactly
            inner = 1
            for d in src[1:]:
                inner *= int(d.args[0])
            p = poly_of(flat)
            q, r = {}, {}
            for m, c in p.items():
                if m and (c / inner).denominator == 1:
                    q[m] = c / inner
                else:
                    r[m] = c
            rr = from_poly(r)
            if not is_num(rr):
                raise Unknown("reshape")
            rem = int(rr.args[0])
            lead = add(from_poly(q), num(rem // inner))
            rem %= inner
        else:
            inner = 1
            for d in src[1:]:
                inner *= int(d.args[0])
            v = int(flat.args[0])
            lead, rem = num(v // inner), v % inner
        out = [lead]
        for k in range(1, len(src)):
            inner = 1
            for d in src[k + 1:]:
                inner *= int(d.args[0])
            out.append(num(rem // inner))
            rem %= inner
        return tuple(out)


def el(t, idx=(), sub=None):
    return El(sub)(t, idx)


# ---------------------------------------------------------------- comparison
FRAGILE = {"quadat", "at"}


def compare(a, b):
    """'eq' | 'ne' | 'unknown' for two scalar terms"""
    if a is b:
        return "eq"
    if is_opaque(a) or is_opaque(b):
        return "unknown"
    r = equal3(a, b)
    return "eq" if r is True else "ne" if r is False else "unknown"


def leaves(t):
    """array atoms the scalar term reads: {base: set of index tuples}"""
    out = {}
    for s in subterms(t):
        if s.op == "at":
            out.setdefault(s.args[0], set()).add(tuple(s.args[1:]))
    return out
